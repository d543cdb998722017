# C13: the console.
alias con = pkg/search/console

macro firstitem(c, i, w) = 0 <= i && i < len(c.searcher.Items) && c.searcher.Items[i].Word == w && (forall j: 0 <= j < i ==> c.searcher.Items[j].Word != w)
macro knownword(c, w) = exists i: 0 <= i < len(c.searcher.Items) && c.searcher.Items[i].Word == w
macro conwf(c) = c.searcher != nil && c.cursor != nil && c.params != nil && len(c.searcher.Items) > 0 && itemswf(c.searcher) && c.params.dim == c.searcher.Items[0].Dim && c.params.dim >= 0
# what the parser builds: no missing operands
macro exprwf(e) = e != nil && (istype(e, "*ast.Ident") ==> as(e, "*ast.Ident") != nil) && (istype(e, "*ast.BinaryExpr") ==> as(e, "*ast.BinaryExpr") != nil)
macro astwf() = forall p *ast.BinaryExpr: p != nil ==> exprwf(p.X) && exprwf(p.Y)
macro isword(e) = istype(e, "*ast.Ident")
macro nameof(e) = as(e, "*ast.Ident").Name

contract con.arithmetic(v1, op, v2)(v, err) {
  props C13
  given k int
  ensures [sum] op == 12 && len(v1) == len(v2) ==> err == nil && len(v) == len(v1) && fresh(v) && (0 <= k < len(v1) ==> v[k] == v1[k] + v2[k])
  ensures [difference] op == 13 && len(v1) == len(v2) ==> err == nil && len(v) == len(v1) && fresh(v) && (0 <= k < len(v1) ==> v[k] == v1[k] - v2[k])
  ensures [unknown-operator-or-lengths] op != 12 && op != 13 || len(v1) != len(v2) ==> err != nil
  inv [v []float64] op == 12 && 0 <= k < it ==> v[k] == v1[k] + v2[k]
  inv [v []float64] op == 13 && 0 <= k < it ==> v[k] == v1[k] - v2[k]
  modifies nothing
}
contract con.(*Console).evalAsEmbedding(c, expr)(e, err) {
  props C13
  requires conwf(c) && exprwf(expr) && astwf()
  given i int
  ensures [words-only] err == nil ==> isword(expr)
  ensures [known-words-only] err == nil ==> knownword(c, nameof(expr))
  ensures [its-item] err == nil && firstitem(c, i, nameof(expr)) ==> e == c.searcher.Items[i]
  ensures [its-word] err == nil ==> e.Word == nameof(expr)
  ensures [a-full-vector] err == nil ==> e.Dim == len(e.Vector) && len(e.Vector) == c.params.dim
  ensures [accepted] isword(expr) && knownword(c, nameof(expr)) && c.params.dim >= 1 ==> err == nil
  modifies c.cursor.w1, c.cursor.w2, c.cursor.vector
}
contract con.(*Console).evalBinaryExpr(c, expr)(err) {
  props C13
  requires conwf(c) && expr != nil && astwf()
  given i int, j int, k int
  let x = nameof(expr.X)
  let y = nameof(expr.Y)
  ensures [words-only] err == nil ==> isword(expr.X) && isword(expr.Y) && knownword(c, x) && knownword(c, y)
  ensures [plus-and-minus-only] err == nil ==> expr.Op == 12 || expr.Op == 13
  ensures [accepted] isword(expr.X) && isword(expr.Y) && knownword(c, x) && knownword(c, y) && (expr.Op == 12 || expr.Op == 13) && c.params.dim >= 1 ==> err == nil
  ensures [both-words] err == nil ==> c.cursor.w1 == x && c.cursor.w2 == y
  ensures [query-length] err == nil ==> len(c.cursor.vector) == c.params.dim
  ensures [sum] err == nil && expr.Op == 12 && firstitem(c, i, x) && firstitem(c, j, y) && 0 <= k < c.params.dim ==> c.cursor.vector[k] == c.searcher.Items[i].Vector[k] + c.searcher.Items[j].Vector[k]
  ensures [difference] err == nil && expr.Op == 13 && firstitem(c, i, x) && firstitem(c, j, y) && 0 <= k < c.params.dim ==> c.cursor.vector[k] == c.searcher.Items[i].Vector[k] - c.searcher.Items[j].Vector[k]
  modifies c.cursor.w1, c.cursor.w2, c.cursor.vector
}
contract con.(*Console).eval(c, l)(err) {
  props C13
  requires conwf(c)
  given i int, j int, k int
  ghost parsed bool = false
  ghost word bool = false
  ghost binary bool = false
  ghost x string
  ghost y string
  ghost wx bool = false
  ghost op int = 0
  ghost found int = 0
  on call parser.ParseExpr(t)(e, er) {
    assume er == nil ==> exprwf(e) && astwf()
    assert [the-line] t == l
    set parsed = er == nil
    set word = istype(e, "*ast.Ident")
    set binary = istype(e, "*ast.BinaryExpr")
    set x = istype(e, "*ast.Ident") ? nameof(e) : nameof(as(e, "*ast.BinaryExpr").X)
    set y = nameof(as(e, "*ast.BinaryExpr").Y)
    set wx = istype(e, "*ast.BinaryExpr") && isword(as(e, "*ast.BinaryExpr").X) && isword(as(e, "*ast.BinaryExpr").Y)
    set op = as(e, "*ast.BinaryExpr").Op
  }
  on call search.(*Searcher).SearchInternal(s, w, n) {
    assert [the-word-itself] parsed && word && s == c.searcher && w == x && n == c.params.k
  }
  on call search.(*Searcher).Search(s, q, n, ign) {
    assert [two-known-words] binary ==> wx && knownword(c, x) && knownword(c, y) && (op == 12 || op == 13)
    assert [this-session] binary ==> s == c.searcher && n == c.params.k
    assert [both-excluded] binary ==> len(ign) == 2 && ign[0] == x && ign[1] == y
    assert [norm] binary ==> q.Norm == sqrt(sumsq(q.Vector, len(q.Vector)))
    assert [sum] binary && op == 12 && firstitem(c, i, x) && firstitem(c, j, y) && 0 <= k < c.params.dim ==> q.Vector[k] == c.searcher.Items[i].Vector[k] + c.searcher.Items[j].Vector[k]
    assert [difference] binary && op == 13 && firstitem(c, i, x) && firstitem(c, j, y) && 0 <= k < c.params.dim ==> q.Vector[k] == c.searcher.Items[i].Vector[k] - c.searcher.Items[j].Vector[k]
  }
  on call search.(Neighbors).Describe(ns) {
    assert [only-supported-lines] parsed && (word || binary)
    assert [no-neighbours-of-unknown-words] word && !knownword(c, x) ==> len(ns) == 0
    assert [binary-of-known-words] binary ==> wx && knownword(c, x) && knownword(c, y) && (op == 12 || op == 13)
  }
  ensures [unsupported-reported] !parsed || !word && !binary ==> err != nil
  ensures [bad-operands-reported] parsed && binary && (!wx || !knownword(c, x) || !knownword(c, y) || op != 12 && op != 13) ==> err != nil
  ensures [session-reset] c.cursor.w1 == "" && c.cursor.w2 == "" && len(c.cursor.vector) == c.params.dim
  ensures [query-reset] 0 <= k < c.params.dim ==> c.cursor.vector[k] == 0.0
  modifies c.cursor.w1, c.cursor.w2, c.cursor.vector
}
