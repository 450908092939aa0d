------------------------------- MODULE StoreMC -------------------------------
(* R roadmaps in one or several processes, F files.  Growing makes a new value and caches it whole; thinning to k keeps the first k
   parts of what is held; widening reads the cache.  Wrong variants: "shared" caches, "lazy" files that follow the roadmap,
   "master" saves the cache instead of what is held, "first" keeps an older file, "sweep" a reset that clears every cache,
   "recache" thinning that overwrites the cache. *)
EXTENDS Store, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
R == 1..P.r   F == 1..P.f   K == P.k   V == P.variant   Gen == P.gen   Max == P.max
VARIABLES mem, cache, file, ghost, want, gen, hist
vars == <<mem, cache, file, ghost, want, gen, hist>>
No == <<0, 0, 0>>                            \* owner, generation, parts held
Slot(r) == IF V = "shared" THEN 1 ELSE r
Log(o, r, a) == hist' = IF Gen THEN Append(hist, <<o, r, a>>) ELSE hist
Init == /\ mem = [r \in R |-> No] /\ cache = [r \in R |-> No] /\ file = [f \in F |-> No] /\ ghost = [f \in F |-> No]
        /\ want = [r \in R |-> No] /\ gen = [r \in R |-> 0] /\ hist = <<>>
Grow(r) == /\ gen[r] < P.gens /\ gen' = [gen EXCEPT ![r] = @ + 1]
           /\ mem' = [mem EXCEPT ![r] = <<r, gen'[r], K>>] /\ cache' = [cache EXCEPT ![Slot(r)] = mem'[r]] /\ want' = [want EXCEPT ![r] = mem'[r]]
           /\ UNCHANGED <<file, ghost>> /\ Log("grow", r, gen'[r])
Thin(r, k) == /\ mem[r] # No /\ UNCHANGED <<file, ghost, gen>>
              /\ LET src == IF k > mem[r][3] THEN cache[Slot(r)] ELSE mem[r] IN mem' = [mem EXCEPT ![r] = IF src = No THEN No ELSE <<src[1], src[2], IF src[3] < k THEN src[3] ELSE k>>]
              /\ cache' = IF V = "recache" THEN [cache EXCEPT ![r] = mem'[r]] ELSE cache
              /\ want' = [want EXCEPT ![r][3] = k] /\ Log("set", r, k)
Query(r) == Gen /\ mem[r] # No /\ UNCHANGED <<mem, cache, file, ghost, want, gen>> /\ Log("query", r, 0)
Save(r, f) == /\ UNCHANGED <<mem, cache, want, gen>> /\ Log("save", r, f)
              /\ IF mem[r] = No THEN UNCHANGED <<file, ghost>>
                 ELSE /\ ghost' = [ghost EXCEPT ![f] = want[r]]
                      /\ file' = IF V = "first" /\ file[f] # No THEN file ELSE [file EXCEPT ![f] = CASE V = "lazy" -> <<r, -1, -1>> [] V = "master" -> cache[r] [] OTHER -> mem[r]]
Reset(r) == /\ mem' = [mem EXCEPT ![r] = No] /\ want' = [want EXCEPT ![r] = No] /\ UNCHANGED <<file, ghost, gen>> /\ Log("reset", r, 0)
            /\ cache' = IF V = "sweep" THEN [q \in R |-> No] ELSE [cache EXCEPT ![Slot(r)] = No]
Next == /\ Gen => Len(hist) < Max
        /\ \E r \in R : Grow(r) \/ Query(r) \/ Reset(r) \/ (\E k \in 1..K : Thin(r, k)) \/ (\E f \in F : Save(r, f))
Spec == Init /\ [][Next]_vars
Read(f) == IF file[f][2] = -1 THEN mem[file[f][1]] ELSE file[f]
Held == mem = want
Filed == \A f \in F : Read(f) = ghost[f]
PrintHist == Gen /\ Len(hist) = Max => PrintT(ToJson([k |-> "S", h |-> hist]))
=============================================================================
