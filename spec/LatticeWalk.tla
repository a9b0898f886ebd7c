------------------------------ MODULE LatticeWalk ------------------------------
(* The enumeration order of a cubic grid as a machine that visits one lattice *)
(* point per step.                                                            *)
EXTENDS Grids, TLC, Json
VARIABLES job, idx, visited
vars == <<job, idx, visited>>
Jobs == JsonDeserialize("jobs.json")      \* [o, ax, sh] with integer entries
Total(j) == Jobs[j].sh[1] * Jobs[j].sh[2] * Jobs[j].sh[3]
Init == /\ job \in 1..Len(Jobs) /\ idx = <<0, 0, 0>> /\ visited = <<idx>>
Next == /\ Len(visited) < Total(job)
        /\ idx' = Succ(Jobs[job].sh, idx)
        /\ visited' = Append(visited, idx')
        /\ UNCHANGED job
InLattice == idx \in Lattice(Jobs[job].sh)
Done == Len(visited) = Total(job)
(* every lattice point exactly once *)
Bijection == Done => {visited[i] : i \in 1..Len(visited)} = Lattice(Jobs[job].sh)
RankIsPosition == LET s == Jobs[job].sh IN
  idx[1]*s[2]*s[3] + idx[2]*s[3] + idx[3] + 1 = Len(visited)
Emit == Done => PrintT("@@" \o ToJson([job |-> job, sh |-> Jobs[job].sh, idx |-> visited,
          pts |-> [i \in 1..Len(visited) |-> Position(Jobs[job].o, Jobs[job].ax, visited[i])],
          det |-> Det(Jobs[job].ax)]))
=============================================================================
