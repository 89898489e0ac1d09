--------------------------------- MODULE QAlgo ---------------------------------
(* Finding, testing and erasing in a sequence of elements <<key, tag>>; equality and *)
(* predicates see the key only, so that the tag shows which element it was.             *)
EXTENDS Integers, Sequences
Match(e, o, v) == \* v: a value, or the set of keys the predicate accepts
  IF o \in {"qfind", "pfind", "erase1", "eraseall"} THEN e[1] = v[1] ELSE \E i \in 1..Len(v) : v[i] = e[1]
RECURSIVE First(_, _, _, _)
First(s, o, v, i) == IF i > Len(s) THEN 0 ELSE IF Match(s[i], o, v) THEN i ELSE First(s, o, v, i + 1)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Rest(s, o, v) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE IF Match(s[i], o, v) THEN F[i - 1] ELSE Append(F[i - 1], s[i]) IN F[Len(s)]
Bit(b) == IF b THEN 1 ELSE 0
Truth(s) == \A i \in 1..Len(s) : s[i][1] # 0
(* the result and what is left; positions count from 0, -1: not there (for an iterator: the end, the length) *)
Do(s, o, v) ==
  LET f == First(s, o, v, 1) IN
  CASE o \in {"qfind", "qfindif"} -> <<IF f = 0 THEN Len(s) ELSE f - 1, s>>
    [] o \in {"pfind", "pfindif"} -> <<f - 1, s>>
    [] o \in {"erase1", "erase1if"} -> <<Bit(f # 0), IF f = 0 THEN s ELSE Without(s, f)>>
    [] o \in {"eraseall", "eraseallif"} -> LET r == Rest(s, o, v) IN <<Len(s) - Len(r), r>>
    [] o = "all" -> <<Bit(\A i \in 1..Len(s) : Match(s[i], o, v)), s>>
    [] o = "any" -> <<Bit(\E i \in 1..Len(s) : Match(s[i], o, v)), s>>
    [] o = "none" -> <<Bit(\A i \in 1..Len(s) : ~Match(s[i], o, v)), s>>
    [] o = "all0" -> <<Bit(Truth(s)), s>>
    [] o = "any0" -> <<Bit(\E i \in 1..Len(s) : s[i][1] # 0), s>>
    [] o = "none0" -> <<Bit(\A i \in 1..Len(s) : s[i][1] = 0), s>>
=============================================================================
