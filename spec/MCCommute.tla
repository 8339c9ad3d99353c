----------------------------- MODULE MCCommute -----------------------------
(* The order of updates, for every reachable book and every two updates, and *)
(* the book built level by level.                                            *)
EXTENDS MCBook

Updates == [side : Sides, p : 1..MaxPrice, v : 0..MaxVolume]
C48 == \A x, y \in Updates :
          Exchangeable(book, <<x, y>>) => ApplyAll(book, <<x, y>>) = ApplyAll(book, <<y, x>>)
(* Three updates, with prices in the middle. *)
Middle == [side : Sides, p : 2..(MaxPrice - 1), v : 0..1]
C48Three == \A x, y, z \in Middle :
          Exchangeable(book, <<x, y, z>>) =>
             LET b == ApplyAll(book, <<x, y, z>>)
             IN  ApplyAll(book, <<z, y, x>>) = b /\ ApplyAll(book, <<y, z, x>>) = b
Empty == NewBook(<<>>, <<>>, book.depth)
C48Built == ApplyAll(Empty, AsUpdates(book)) = book /\ ApplyAll(Empty, Reverse(AsUpdates(book))) = book
=============================================================================
