# C07: parameter matrices.
alias matrix = pkg/model/modelutil/matrix

macro matwf(m) = m != nil && m.row >= 0 && m.col >= 0 && len(m.array) == m.row * m.col && cap(m.array) >= len(m.array)
macro mrow(m, i) = slice4(m.array, i * m.col, m.col)

contract matrix.(*Matrix).Row(m)(r) {
  props C07
  ensures r == m.row
  modifies nothing
}
contract matrix.(*Matrix).Col(m)(r) {
  props C07
  ensures r == m.col
  modifies nothing
}
contract matrix.(*Matrix).Slice(m, id)(s) {
  props C07
  requires matwf(m) && 0 <= id < m.row
  ensures [length] len(s) == m.col
  ensures [storage] ref(s) == ref(m.array) && off(s) == off(m.array) + id * m.col
  modifies nothing
}
contract matrix.New(row, col, fn)(m) {
  props C07
  inline
  requires row >= 0 && col >= 0
  opaque fn (i, s) {
    modifies s[*]
  }
  ghost calls int = 0
  ghost store int = 0
  on call fn(i, s) {
    assert [initialiser-called-in-row-order] i == calls
    assert [initialiser-gets-its-row] len(s) == col && off(s) == i * col && (calls == 0 || ref(s) == store)
    set store = ref(s)
    set calls = calls + 1
  }
  ensures [wf] matwf(m)
  ensures [dims] m.row == row && m.col == col
  ensures [fresh] fresh(m) && fresh(m.array)
  ensures [initialiser-called-once-per-row] calls == row
  ensures [one-storage] row > 0 ==> ref(m.array) == store && off(m.array) == 0
  inv calls == it && 0 <= calls
  inv [m *matrix.Matrix] calls > 0 ==> store == ref(m.array)
  modifies nothing
}

# rows never share an element and together are the whole storage
lemma rows_disjoint(i int, j int, c int, a int, b int) props C07 :
  i != j && 0 <= a < c && 0 <= b < c ==> i * c + a != j * c + b
lemma rows_cover(n int, c int, k int) props C07 :
  c >= 1 && n >= 0 && 0 <= k < n * c ==> 0 <= idiv(k, c) < n && 0 <= k - idiv(k, c) * c < c
