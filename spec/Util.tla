-------------------------------- MODULE Util --------------------------------
(* utility.hpp and type_traits.hpp, and what headers' static requirements admit.  *)
(* A type is <<size, kind>>: i, u (integers), b (bool), f (floating point),        *)
(* p (pointer), e, eb (enumerations over integers and over bool), c (class).       *)
EXTENDS Integers, Sequences
Scalar(t) == t[2] # "c"
Boolean(t) == t[2] \in {"b", "eb"}
\* casting leaves the representation as it is, whatever the value
Noop(f, t) == /\ f[1] = t[1] /\ Scalar(f) /\ Scalar(t)
              /\ (f[2] = "f") <=> (t[2] = "f")
              /\ Boolean(t) => Boolean(f)
\* an object of type T may be moved by force_move exactly if it is not const
MovesFrom(const) == ~const
CastsBits(from, to) == from = to
PodAdmits(trivial, align) == trivial /\ align <= 128
SmallAdmits(cap, rev) == rev <= cap + 1
Admits(e) == CASE e.fn = "force_move" -> MovesFrom(e.a = 1)
               [] e.fn = "bit_cast" -> CastsBits(e.a, e.b)
               [] e.fn = "pod_vector" -> PodAdmits(e.a = 1, e.b)
               [] e.fn = "small_vector" -> SmallAdmits(e.a, e.b)
               [] e.fn = "counter" -> e.a = 1          \* integral
               [] e.fn = "bitset" -> e.a = 1           \* words unsigned
               [] e.fn = "stream" -> e.a = 1           \* trivial characters
               [] e.fn = "copy" -> e.a = 1             \* copying what is documented as not copyable
               [] OTHER -> FALSE
\* where the owner of a member is
OwnerAt(member, offset) == member - offset
\* moving n times leaves what a moved-from object holds, copying never happens
=============================================================================
