----------------------------- MODULE RasterGeo -----------------------------
(* Grid geometry.  geo = <<x, y, cs>>: centre of the lower left cell and the cell size, all in
   one integer unit.  Row 0 is the northernmost row.  A cell owns its west and north edges. *)
EXTENDS Integers, Sequences
Centre(g, row, col) == <<g.geo[1] + col * g.geo[3], g.geo[2] + (g.rows - 1 - row) * g.geo[3]>>
Outside == <<-1, -1>>
CellAt(g, x, y) ==
  LET dx == (2 * x - 2 * g.geo[1]) + g.geo[3]                          \* twice the distance from the west edge
      dy == ((2 * g.geo[2] - g.geo[3]) + 2 * g.geo[3] * g.rows) - 2 * y  \* twice the distance from the north edge
      w == 2 * g.geo[3]
  IN IF dx >= 0 /\ dx < w * g.cols /\ dy >= 0 /\ dy < w * g.rows
     THEN <<dy \div w, dx \div w>> ELSE Outside
InGrid(g, row, col) == row >= 0 /\ row < g.rows /\ col >= 0 /\ col < g.cols
Cells(g) == [i \in 1..(g.rows * g.cols) |-> <<(i - 1) \div g.cols, (i - 1) % g.cols>>]
=============================================================================
