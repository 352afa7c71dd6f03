---------------------------- MODULE MCBoundaries ----------------------------
(***************************************************************************)
(* The multipart boundaries of an exploration: overlapping prefixes,       *)
(* hyphens, and boundaries that look like a delimiter themselves.  The     *)
(* checks replace this module by a copy with further boundaries.           *)
(***************************************************************************)
MCBoundaries == << <<98>>,                                   \* b
                   <<45, 45, 97>>,                           \* --a
                   <<97, 97, 98>>,                           \* aab
                   <<45>>,                                   \* -
                   <<88, 45, 45, 88, 45, 45, 89>> >>         \* X--X--Y
=============================================================================
