# C09: the lines of a vector file.
macro ignored(s, i) = hasprefix(lineat(s, i), " ")
rec allfloat(l string, n int) bool = n <= 1 ? true : allfloat(l, n - 1) && isfloat(fieldat(l, n - 1))
macro goodline(l) = nfields(l) >= 2 && allfloat(l, nfields(l))
rec nkept(s int, n int) int = n <= 0 ? 0 : nkept(s, n - 1) + (ignored(s, n - 1) ? 0 : 1)
rec allgood(s int, n int) bool = n <= 0 ? true : allgood(s, n - 1) && (ignored(s, n - 1) || goodline(lineat(s, n - 1)))
lemma allfloat_mono(l string, i int, n int) induction n from i trigger {allfloat(l, i), allfloat(l, n)} manual props C09 : i <= n && allfloat(l, n) ==> allfloat(l, i)
lemma allgood_mono(s int, i int, n int) induction n from i trigger {allgood(s, i), allgood(s, n)} manual props C09 : i <= n && allgood(s, n) ==> allgood(s, i)
lemma nkept_nonneg(s int, n int) induction n trigger {nkept(s, n)} manual props C09 : nkept(s, n) >= 0
lemma nkept_mono(s int, i int, n int) induction n from i manual props C09 : i <= n ==> nkept(s, i) <= nkept(s, n)
lemma nkept_strict(s int, i int, n int) trigger {nkept(s, i), nkept(s, n)} manual props C09 hint nkept_mono(s, i + 1, n) : 0 <= i && i < n && !ignored(s, i) ==> nkept(s, i) < nkept(s, n)

contract emb.parseLine(line)(e, err) {
  props C09
  uses allfloat_mono
  given k int
  ensures [well-formed-lines-only] (err == nil) == goodline(line)
  ensures [word] err == nil ==> e.Word == fieldat(line, 0) && e.Word != ""
  ensures [dimension] err == nil ==> e.Dim == nfields(line) - 1 && len(e.Vector) == nfields(line) - 1
  ensures [numbers] err == nil && 0 <= k < nfields(line) - 1 ==> e.Vector[k] == parsefloat(fieldat(line, k + 1))
  ensures [norm] err == nil ==> e.Norm == sqrt(sumsq(e.Vector, len(e.Vector)))
  ensures [own-vector] err == nil ==> fresh(e.Vector)
  inv allfloat(line, it + 1)
  inv [v []float64] 0 <= k < it ==> v[k] == parsefloat(fieldat(line, k + 1))
  modifies nothing
}

contract emb.Load(r)(embs, err) {
  props C09
  uses allgood_mono, nkept_strict, nkept_nonneg
  seal allfloat, sumsq
  given i int, k int
  let s = old(stream(r))
  let n = nlines(old(stream(r)))
  ensures [read-error] rfails(s) ==> err != nil
  ensures [malformed-line] !allgood(s, n) ==> err != nil
  ensures [accepted] !rfails(s) && allgood(s, n) ==> err == nil
  ensures [nothing-on-error] err != nil ==> len(embs) == 0
  ensures [one-per-line] err == nil ==> len(embs) == nkept(s, n)
  ensures [word] err == nil && 0 <= i < n && !ignored(s, i) ==> embs[nkept(s, i)].Word == fieldat(lineat(s, i), 0)
  ensures [dimension] err == nil && 0 <= i < n && !ignored(s, i) ==> embs[nkept(s, i)].Dim == nfields(lineat(s, i)) - 1 && len(embs[nkept(s, i)].Vector) == nfields(lineat(s, i)) - 1
  ensures [numbers] err == nil && 0 <= i < n && !ignored(s, i) && 0 <= k < nfields(lineat(s, i)) - 1 ==> embs[nkept(s, i)].Vector[k] == parsefloat(fieldat(lineat(s, i), k + 1))
  ensures [norm] err == nil && 0 <= i < n && !ignored(s, i) ==> embs[nkept(s, i)].Norm == sqrt(sumsq(embs[nkept(s, i)].Vector, nfields(lineat(s, i)) - 1))
  inv [sc *bufio.Scanner] g("scstream", "int", sc) == s && g("scmode", "int", sc) == 0 && g("sclim", "int", sc) == 9223372036854775807 && !g("scfail", "bool", sc) && g("scpos", "int", sc) == it && it <= n
  inv [sc *bufio.Scanner] allgood(s, it)
  inv [e emb.Embeddings] len(e) == nkept(s, it)
  inv [e emb.Embeddings] 0 <= i < it && !ignored(s, i) ==> e[nkept(s, i)].Word == fieldat(lineat(s, i), 0)
  inv [e emb.Embeddings] 0 <= i < it && !ignored(s, i) ==> e[nkept(s, i)].Dim == nfields(lineat(s, i)) - 1 && len(e[nkept(s, i)].Vector) == nfields(lineat(s, i)) - 1
  inv [e emb.Embeddings] 0 <= i < it && !ignored(s, i) && 0 <= k < nfields(lineat(s, i)) - 1 ==> e[nkept(s, i)].Vector[k] == parsefloat(fieldat(lineat(s, i), k + 1))
  inv [e emb.Embeddings] 0 <= i < it && !ignored(s, i) ==> e[nkept(s, i)].Norm == sqrt(sumsq(e[nkept(s, i)].Vector, nfields(lineat(s, i)) - 1))
  modifies g("rpos", "int", r)
}
