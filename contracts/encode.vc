# C05: word-pair keys.
alias encode = pkg/corpus/cooccurrence/encode

contract encode.EncodeBigram(l1, l2)(res) {
  props C05
  mode int=bv
  requires l1 < 4294967296 && l2 < 4294967296
  ensures [key-of-sorted-pair] res == min(l1, l2) + max(l1, l2) * 4294967296
  modifies nothing
}

contract encode.DecodeBigram(pid)(a, b) {
  props C05
  mode int=bv
  ensures [halves] a < 4294967296 && b < 4294967296
  ensures [recombine] pid == a + b * 4294967296
  modifies nothing
}

# The three clauses of C05 over the two contracts (keys as mathematical integers).
lemma key_symmetric(a int, b int) props C05 :
  min(a, b) + max(a, b) * 4294967296 == min(b, a) + max(b, a) * 4294967296

lemma key_injective(a int, b int, c int, d int) props C05 :
  0 <= a < 4294967296 && 0 <= b < 4294967296 && 0 <= c < 4294967296 && 0 <= d < 4294967296 &&
  min(a, b) + max(a, b) * 4294967296 == min(c, d) + max(c, d) * 4294967296
  ==> min(a, b) == min(c, d) && max(a, b) == max(c, d)

lemma key_decodes(l int, h int, a int, b int) props C05 :
  0 <= l < 4294967296 && 0 <= h < 4294967296 && 0 <= a < 4294967296 && 0 <= b < 4294967296 &&
  a + b * 4294967296 == l + h * 4294967296
  ==> a == l && b == h
