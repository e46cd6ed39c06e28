------------------------------- MODULE Fetch -------------------------------
(***************************************************************************)
(* Fetching a ray-tracing map: the script downloads a binary file unless   *)
(* it is there, converts its convergence to a FITS map and gives that its  *)
(* final name; with the final file in place it does nothing.  A run may be *)
(* cut short by an event:                                                  *)
(*   drop, short, refused   the download breaks off with an error, ends    *)
(*                          early without one, or the server says no       *)
(*   write, name            the run dies while the map is being written,   *)
(*                          or before it gets its final name               *)
(* or be killed between any two of its steps (Killed).                     *)
(* bin and fits say whether the binary file and the final map are there;   *)
(* there is no state with an incomplete one.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Events == {"ok", "drop", "short", "refused", "write", "name"}
AtDownload == {"drop", "short", "refused"}
Fresh(b) == [bin |-> b, fits |-> FALSE, got |-> FALSE, raised |-> FALSE]

\* what an event does depends on whether the run gets that far
Run(s, e) ==
  IF s.fits THEN [s EXCEPT !.got = FALSE, !.raised = FALSE]
  ELSE IF ~s.bin /\ e \in AtDownload THEN [bin |-> FALSE, fits |-> FALSE, got |-> TRUE, raised |-> TRUE]
  ELSE IF e \in {"write", "name"} THEN [bin |-> TRUE, fits |-> FALSE, got |-> ~s.bin, raised |-> TRUE]
  ELSE [bin |-> TRUE, fits |-> TRUE, got |-> ~s.bin, raised |-> FALSE]

\* what may be there after a run that was killed anywhere
Killed(s) == IF s.fits THEN {[s EXCEPT !.got = FALSE, !.raised = TRUE]}
             ELSE {n \in [bin : BOOLEAN, fits : BOOLEAN, got : BOOLEAN, raised : {TRUE}] :
                    (s.bin => n.bin /\ ~n.got) /\ (n.fits => n.bin) /\ (n.bin => s.bin \/ n.got)}

(* The binary file, as 4-byte words: record marker, nside, number of pixels (two words), marker; then for the
   convergence, the two shear components and the rotation: marker, the values, marker.  *)
Npix(w) == w[3]
Kappa(w) == SubSeq(w, 7, 6 + Npix(w))
(* Which maps there are: resolution, realisation, redshift plane. *)
Choice(nres, real, z) == nres \in {12, 13, 14} /\ z \in 1..66 /\ real \in (IF nres = 14 THEN {0} ELSE 0..107)
Url(nres, name) == "http://cosmo.phys.hirosaki-u.ac.jp/takahasi/allsky_raytracing/sub1/nres" \o ToString(nres) \o "/" \o name
=============================================================================
