--------------------------------- MODULE Tape ---------------------------------
(* Reverse-mode differentiation of a scattering transform, as a machine.          *)
(*                                                                                 *)
(* A program is a list of blocks; a block starts from the input (source 0), from an *)
(* earlier block, or from several stacked along a new zero-padded axis, and applies  *)
(* operations [o, w, n, k, x, r]: "mul" by filter n of family w at resolution k along axis x, "sub"  *)
(* (periodise by 2^k), "mod", "re", "sum" along x, "win" (samples n..k, rows r).      *)
(* Axis 1 is the last one, 2 the one before, 3 both at once.                           *)
(* Forward: the machine types every intermediate array (lengths, domain on each axis,   *)
(* real or complex), inserts the Fourier transforms the operations need and records      *)
(* one node per primitive operation.  Backward: the nodes are popped in reverse, each     *)
(* by its adjoint; a node may only be popped when all its consumers have been.             *)
(* k.l1, k.l2 (input), k.p1, k.p2 (padded), k.blocks                                        *)
EXTENDS Dyadic
Ty(l1, l2, d1, d2, f) == [l1 |-> l1, l2 |-> l2, d1 |-> d1, d2 |-> d2, f |-> f]
On1(x) == x \in {1, 3}
On2(x) == x \in {2, 3}
\* Domain an operation works in on the axes it acts on ("any": leaves it alone).
Need(o) == CASE o.o \in {"mul", "sub"} -> "f" [] OTHER -> "t"
\* Axes that must be brought to that domain before o applies to an array of type t.
Wrong(o, t) ==
    LET w == Need(o)
        a1 == (IF o.o \in {"mul", "sub"} THEN On1(o.x) ELSE TRUE) /\ t.d1 # w
        a2 == (IF o.o \in {"mul", "sub"} THEN On2(o.x) ELSE TRUE) /\ t.d2 # w
    IN IF a1 /\ a2 THEN 3 ELSE IF a1 THEN 1 ELSE IF a2 THEN 2 ELSE 0
Flip(t, x, d) == Ty(t.l1, t.l2, IF On1(x) THEN d ELSE t.d1, IF On2(x) THEN d ELSE t.d2, "C")
Legal(o, t) == CASE o.o = "sub" -> /\ (On1(o.x) => t.l1 % Pow2(o.k) = 0)
                                   /\ (On2(o.x) => t.l2 % Pow2(o.k) = 0)
                 [] o.o = "win" -> 0 <= o.n /\ o.n < o.k /\ o.k <= t.l1 /\ 0 <= o.r[1] /\ o.r[1] < o.r[2] /\ o.r[2] <= t.l2
                 [] o.o = "sum" -> t.f = "R"
                 [] OTHER -> TRUE
Result(o, t) == CASE o.o = "sub" -> Ty(IF On1(o.x) THEN t.l1 \div Pow2(o.k) ELSE t.l1,
                                       IF On2(o.x) THEN t.l2 \div Pow2(o.k) ELSE t.l2, t.d1, t.d2, "C")
                  [] o.o \in {"mod", "re"} -> Ty(t.l1, t.l2, t.d1, t.d2, "R")
                  [] o.o = "sum" -> Ty(IF On1(o.x) THEN 1 ELSE t.l1, IF On2(o.x) THEN 1 ELSE t.l2, t.d1, t.d2, t.f)
                  [] o.o = "win" -> Ty(o.k - o.n, o.r[2] - o.r[1], t.d1, t.d2, t.f)
                  [] OTHER -> [t EXCEPT !.f = "C"]
Adjoint(o) == CASE o = "pad" -> "fold" [] o = "stack" -> "split" [] o = "fft" -> "ffth" [] o = "ifft" -> "iffth"
                [] o = "mul" -> "mulh" [] o = "sub" -> "tile" [] o = "mod" -> "phase" [] o = "re" -> "embed"
                [] o = "sum" -> "spread" [] o = "win" -> "place" [] OTHER -> "none"

VARIABLES ci, c, pc, b, i, cur, nodes, heads, pend, ptr, prog
tvars == <<ci, c, pc, b, i, cur, nodes, heads, pend, ptr, prog>>
Node(o, w, n, k, x, r, args, ty) == [o |-> o, w |-> w, n |-> n, k |-> k, x |-> x, r |-> r, args |-> args, ty |-> ty]
Start(k, id) ==
    /\ ci = id /\ c = k /\ pc = "fwd" /\ b = 1 /\ i = 0 /\ cur = 0 /\ heads = <<>> /\ pend = <<>> /\ ptr = 0 /\ prog = <<>>
    /\ nodes = << Node("input", "", 0, 0, 0, <<0, 0>>, <<>>, Ty(k.l1, k.l2, "t", "t", "R")),
                  Node("pad", "", 0, 0, 0, <<0, 0>>, <<1>>, Ty(k.p1, k.p2, "t", "t", "R")) >>
Keep == UNCHANGED <<ci, c, pend, ptr, prog>>
Head0(s) == IF s = 0 THEN 2 ELSE heads[s]
Blk == c.blocks[b]
Op1 == Blk.ops[i]
Push(nd) == nodes' = Append(nodes, nd) /\ cur' = Len(nodes) + 1
Open == /\ pc = "fwd" /\ b <= Len(c.blocks) /\ i = 0
        /\ i' = 1
        /\ IF Blk.stack = 0 THEN cur' = Head0(Blk.src[1]) /\ UNCHANGED nodes
           ELSE LET as == [q \in 1..Len(Blk.src) |-> Head0(Blk.src[q])]
                    t == nodes[as[1]].ty
                IN Push(Node("stack", "", 0, 0, 2, <<0, 0>>, as, Ty(t.l1, Blk.stack, t.d1, t.d2, t.f)))
        /\ Keep /\ UNCHANGED <<pc, b, heads>>
Convert == /\ pc = "fwd" /\ b <= Len(c.blocks) /\ i > 0 /\ i <= Len(Blk.ops)
           /\ LET w == Wrong(Op1, nodes[cur].ty) IN
              /\ w # 0
              /\ Push(Node(IF Need(Op1) = "f" THEN "fft" ELSE "ifft", "", 0, 0, w, <<0, 0>>, <<cur>>,
                           Flip(nodes[cur].ty, w, Need(Op1))))
           /\ Keep /\ UNCHANGED <<pc, b, i, heads>>
Do == /\ pc = "fwd" /\ b <= Len(c.blocks) /\ i > 0 /\ i <= Len(Blk.ops)
      /\ Wrong(Op1, nodes[cur].ty) = 0 /\ Legal(Op1, nodes[cur].ty)
      /\ Push(Node(Op1.o, Op1.w, Op1.n, Op1.k, Op1.x, Op1.r, <<cur>>, Result(Op1, nodes[cur].ty)))
      /\ i' = i + 1 /\ Keep /\ UNCHANGED <<pc, b, heads>>
\* A block whose result is still in the Fourier domain ends with the inverse transform.
Settle == LET t == nodes[cur].ty IN IF t.d1 = "f" /\ t.d2 = "f" THEN 3 ELSE IF t.d1 = "f" THEN 1 ELSE IF t.d2 = "f" THEN 2 ELSE 0
Close == /\ pc = "fwd" /\ b <= Len(c.blocks) /\ i > Len(Blk.ops) /\ i > 0
         /\ IF Settle # 0
            THEN /\ Push(Node("ifft", "", 0, 0, Settle, <<0, 0>>, <<cur>>, Flip(nodes[cur].ty, Settle, "t")))
                 /\ UNCHANGED <<b, i, heads>>
            ELSE heads' = Append(heads, cur) /\ b' = b + 1 /\ i' = 0 /\ UNCHANGED <<nodes, cur>>
         /\ Keep /\ UNCHANGED pc
RECURSIVE Bump(_, _, _)
Bump(f, as, d) == IF as = <<>> THEN f ELSE Bump([f EXCEPT ![as[1]] = @ + d], Tail(as), d)
RECURSIVE Count(_, _)
Count(q, f) == IF q = 0 THEN f ELSE Count(q - 1, Bump(f, nodes[q].args, 1))
Turn == /\ pc = "fwd" /\ b > Len(c.blocks)
        /\ pc' = "seed" /\ pend' = Count(Len(nodes), [v \in 1..Len(nodes) |-> 0])
        /\ ptr' = Len(nodes) /\ UNCHANGED <<ci, c, b, i, cur, nodes, heads, prog>>
\* Pop the last node: its gradient flows to its arguments.
Pop == /\ pc \in {"seed", "bwd"} /\ ptr > 1
       /\ pc' = "bwd"
       /\ prog' = Append(prog, [v |-> ptr, o |-> Adjoint(nodes[ptr].o), to |-> nodes[ptr].args])
       /\ pend' = Bump(pend, nodes[ptr].args, -1)
       /\ ptr' = ptr - 1
       /\ UNCHANGED <<ci, c, b, i, cur, nodes, heads>>
Finish == pc = "bwd" /\ ptr = 1 /\ pc' = "done" /\ UNCHANGED <<ci, c, b, i, cur, nodes, heads, pend, ptr, prog>>
Step == Open \/ Convert \/ Do \/ Close \/ Turn \/ Pop \/ Finish
\* ------------------------------------------------------------------ properties
\* A node is popped only once its gradient is complete.
InvComplete == pc \in {"seed", "bwd"} => pend[ptr] = 0
\* Every node is popped exactly once, the input last of all, with nothing outstanding.
InvAll == pc = "done" => /\ Len(prog) = Len(nodes) - 1
                         /\ {prog[q].v : q \in 1..Len(prog)} = 2..Len(nodes)
                         /\ \A v \in DOMAIN pend : pend[v] = 0
\* Types: Fourier arrays are complex, what is returned lives in the signal domain, the
\* modulus and the real part are the only ways back to real arrays.
InvTypes == \A q \in 1..Len(nodes) : LET t == nodes[q].ty IN
                /\ t.l1 >= 1 /\ t.l2 >= 1
                /\ (t.f = "R" => t.d1 = "t" /\ t.d2 = "t")
                /\ (nodes[q].o \in {"mul", "sub", "fft", "ifft"} => t.f = "C")
InvHeads == \A q \in 1..Len(heads) : nodes[heads[q]].ty.d1 = "t" /\ nodes[heads[q]].ty.d2 = "t"
\* Arguments come before the nodes that use them.
InvOrder == \A q \in 1..Len(nodes) : \A a \in 1..Len(nodes[q].args) : nodes[q].args[a] < q
InvDone == pc = "done" => InvAll /\ InvTypes /\ InvHeads /\ InvOrder
=============================================================================
