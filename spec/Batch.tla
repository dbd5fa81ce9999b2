--------------------------------- MODULE Batch ---------------------------------
(* Leading batch dimensions are transparent.                                    *)
(*                                                                              *)
(* State: an input array of signals with some leading shape.  mem[i] names the   *)
(* signal stored in the i-th cell in row-major order: 1..K are ordinary signals, *)
(* K+1 the zero signal, K+2 a huge one, K+3 contains NaN, K+4 contains infinity. *)
(* Operations refill the array with another shape, swap two cells, overwrite one *)
(* cell, change the memory layout, and call the transform.  A call must return   *)
(* an array of the same leading shape whose cell i depends on mem[i] only.       *)
(*                                                                               *)
(* k.K, k.shapes (sequence of leading shapes), k.layouts, k.outs, k.steps;        *)
(* k.contig: the frontend only accepts contiguous memory (PyTorch).               *)
EXTENDS Dyadic
Zero(k) == k.K + 1
Huge(k) == k.K + 2
NaN(k) == k.K + 3
Inf(k) == k.K + 4
Cells(s) == SeqProd(s)
\* Row-major multi-index (zero-based) of cell i (one-based).
Stride(s, d) == SeqProd(SubSeq(s, d + 1, Len(s)))
Index(s, i) == [d \in 1..Len(s) |-> ((i - 1) \div Stride(s, d)) % s[d]]

VARIABLES ci, c, pc, shape, mem, layout, n, hist
bvars == <<ci, c, pc, shape, mem, layout, n, hist>>
Start(k, id) == /\ ci = id /\ c = k /\ pc = "run" /\ shape = <<>> /\ mem = <<1>>
                /\ layout = "C" /\ n = 0 /\ hist = <<>>
Fills == {[op |-> "fill", shape |-> c.shapes[a], start |-> b, inc |-> d] :
             a \in 1..Len(c.shapes), b \in 0..(c.K - 1), d \in 1..2}
Swaps == {[op |-> "swap", i |-> i, j |-> j] : i \in 1..Len(mem), j \in 1..Len(mem)}
Pokes == {[op |-> "poke", i |-> i, v |-> v] : i \in 1..Len(mem), v \in 1..(c.K + 4)}
Layouts == {[op |-> "layout", to |-> c.layouts[a]] : a \in 1..Len(c.layouts)}
Calls == {[op |-> "call", out |-> c.outs[a]] : a \in 1..Len(c.outs)}
Ops == Fills \cup {o \in Swaps : o.i < o.j} \cup Pokes \cup Layouts \cup Calls

Rejected == c.contig /\ layout \notin {"C", "offset"}
Fill(o) == /\ o.op = "fill" /\ shape' = o.shape
           /\ mem' = [i \in 1..Cells(o.shape) |-> 1 + ((o.start + (i - 1) * o.inc) % c.K)]
           /\ UNCHANGED layout
Swap(o) == /\ o.op = "swap" /\ mem' = [mem EXCEPT ![o.i] = mem[o.j], ![o.j] = mem[o.i]] /\ UNCHANGED <<shape, layout>>
Poke(o) == /\ o.op = "poke" /\ mem' = [mem EXCEPT ![o.i] = o.v] /\ UNCHANGED <<shape, layout>>
Layout(o) == /\ o.op = "layout" /\ layout' = o.to /\ UNCHANGED <<shape, mem>>
Call(o) == /\ o.op = "call" /\ UNCHANGED <<shape, mem, layout>>
Apply(o) == /\ pc = "run" /\ n < c.steps /\ n' = n + 1
            /\ (Fill(o) \/ Swap(o) \/ Poke(o) \/ Layout(o) \/ Call(o))
            /\ hist' = Append(hist, [o |-> o, shape |-> shape, layout |-> layout, rejected |-> Rejected,
                                     cells |-> [i \in 1..Len(mem) |-> [at |-> Index(shape, i), id |-> mem[i]]]])
            /\ UNCHANGED <<ci, c, pc>>

\* Cells are in bijection with multi-indices, in lexicographic order.
InvIndex == /\ Len(mem) = Cells(shape)
            /\ \A i \in 1..Len(mem), d \in 1..Len(shape) : Index(shape, i)[d] \in 0..(shape[d] - 1)
            /\ \A i \in 1..(Len(mem) - 1) : LexLess(Index(shape, i), Index(shape, i + 1))
InvIds == \A i \in 1..Len(mem) : mem[i] \in 1..(c.K + 4)
\* Only the written cells of the last operation changed, unless refilled.
InvLocal == Len(hist) >= 2 =>
    LET a == hist[Len(hist) - 1] b == hist[Len(hist)] IN
    \/ a.o.op = "fill"
    \/ /\ Len(a.cells) = Len(b.cells)
       /\ \A i \in 1..Len(a.cells) : a.cells[i] = b.cells[i]
             \/ (a.o.op = "poke" /\ a.o.i = i) \/ (a.o.op = "swap" /\ i \in {a.o.i, a.o.j})
=============================================================================
