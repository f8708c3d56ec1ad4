--------------------------- MODULE RasterParTrace ---------------------------
(* Rasters worked on by a number of workers.  Whatever their number and the order in which they come to act, the results
   are those of the raster machine; and the loops run are orderly, so no other schedule could give others. *)
EXTENDS RasterTrace, ParLoop
VARIABLE team
pvars == <<l, reg, files, team>>
Shared == /\ \A i \in 1..Len(E.par.use): Ok(<<"orderly", E.par.use[i]>>, Orderly(E.par.use[i]))
          /\ Ok("team", E.par.workers <= team')
Threads == /\ Is("threads") /\ Step(reg) /\ KeepFiles
           /\ team' = IF E.n < 0 THEN team ELSE IF E.n = 0 THEN Max2({1, E.half}) ELSE E.n
           /\ Chk("number of threads", team', E.par.max)
InitPar == Init /\ team = 1
NextPar == (Threads \/ (Next /\ UNCHANGED team)) /\ Shared
SpecPar == InitPar /\ [][NextPar]_pvars
=============================================================================
