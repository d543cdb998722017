From 6c8dda1c2ec49021b72b24f94ff922bdd3f1cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 01/14] fix: Search returned blank neighbors when fewer than k
 items match

---
 pkg/search/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index ed5c89a..0dd49dc 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -129,6 +129,7 @@ func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string
 	for i := 0; i < len(neighbors); i++ {
 		if neighbors[i].Word == "" {
 			k = i
+			break
 		}
 	}
 
-- 
2.43.0


From d51b6e6d3c4125893ea047b00bc774e5c57bd0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 02/14] fix: Search panicked for k <= 0

---
 pkg/search/search.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index 0dd49dc..9015013 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -92,6 +92,9 @@ func (s *Searcher) SearchVector(query []float64, k int) (Neighbors, error) {
 }
 
 func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string) (Neighbors, error) {
+	if k <= 0 {
+		return Neighbors{}, nil
+	}
 	neighbors := make(Neighbors, k)
 
 	// Map to quickly check if a word is to be ignored.
-- 
2.43.0


From 947d695e2a20afb1bc7762be0ef0994f87c6eda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 03/14] fix: Save reported success when the destination failed

---
 pkg/model/modelutil/vector/vector.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/model/modelutil/vector/vector.go b/pkg/model/modelutil/vector/vector.go
index ebc580d..de23fbb 100644
--- a/pkg/model/modelutil/vector/vector.go
+++ b/pkg/model/modelutil/vector/vector.go
@@ -43,7 +43,6 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 		return fmt.Errorf("different for length of dic and row of matrix: %d, %d", dic.Len(), mat.Row())
 	}
 	writer := bufio.NewWriter(f)
-	defer writer.Flush()
 
 	var buf bytes.Buffer
 	clk := clock.New()
@@ -64,5 +63,5 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 	verbose.Do(func() {
 		fmt.Printf("saved %d words %v\r\n", dic.Len(), clk.AllElapsed())
 	})
-	return nil
+	return writer.Flush()
 }
-- 
2.43.0


From ce73638dc53a84bf2e51a85c2441390a2415e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 04/14] fix: glove and lexvec exported single vectors for agg
 and vice versa

---
 pkg/model/glove/glove.go   | 2 +-
 pkg/model/lexvec/lexvec.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index f3b0d18..77bebc7 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -181,7 +181,7 @@ func (g *glove) Save(f io.Writer, typ vector.Type) error {
 func (g *glove) WordVector(typ vector.Type) *matrix.Matrix {
 	var mat *matrix.Matrix
 	dic := g.corpus.Dictionary()
-	if typ == vector.Agg {
+	if typ != vector.Agg {
 		mat = matrix.New(dic.Len(), g.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < g.opts.Dim; i++ {
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 09004e7..dbdb500 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -260,7 +260,7 @@ func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
 func (l *lexvec) WordVector(typ vector.Type) *matrix.Matrix {
 	var mat *matrix.Matrix
 	dic := l.corpus.Dictionary()
-	if typ == vector.Agg {
+	if typ != vector.Agg {
 		mat = matrix.New(dic.Len(), l.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < l.opts.Dim; i++ {
-- 
2.43.0


From 410756fa4d61a8bdc6aaa56d5e17db3c82556320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 05/14] fix: max-depth=0 did not mean the full path

---
 pkg/corpus/dictionary/node/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 506f48b..fa3e71d 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -36,7 +36,7 @@ func (n *Node) GetPath(depth int) []*Node {
 		}
 		re(n.cache)
 	}
-	if depth > len(n.cache) {
+	if depth <= 0 || depth > len(n.cache) {
 		depth = len(n.cache)
 	}
 	return n.cache[:depth]
-- 
2.43.0


From cb007f62a8b1a16b06847d2230ee10bdf8507103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 06/14] fix: forward contexts at the end of the text were lost,
 short texts got empty words

---
 pkg/corpus/cpsutil/cpsutil.go | 42 ++++++++++++-----------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 020b098..cbdb4c2 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -46,11 +46,11 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
 	r.Seek(0, 0)
 	scanner := scanner(r)
-	var (
-		axis string
-		ws   []string = make([]string, n)
-	)
+	// ws holds the current word followed by its forward context (up to n words).
+	var ws []string
 	postFn := func() error {
+		axis := ws[0]
+		ws = ws[1:]
 		for _, w := range ws {
 			if err := fn(axis, w); err != nil {
 				return err
@@ -58,36 +58,22 @@ func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string)
 		}
 		return nil
 	}
-	for {
-		if axis == "" {
-			if !scanner.Scan() {
-				break
-			}
-			axis = scanner.Text()
-			for i := 0; i < n; i++ {
-				if !scanner.Scan() {
-					break
-				}
-				ws[i] = scanner.Text()
-			}
-		} else {
-			axis = ws[0]
-			ws = ws[1:]
-			if !scanner.Scan() {
-				break
+	for scanner.Scan() {
+		ws = append(ws, scanner.Text())
+		if len(ws) > n {
+			if err := postFn(); err != nil {
+				return err
 			}
-			ws = append(ws, scanner.Text())
-		}
-		if err := postFn(); err != nil {
-			return err
 		}
 	}
-	if err := postFn(); err != nil {
+	if err := scanner.Err(); err != nil && err != io.EOF {
 		return err
 	}
 
-	if err := scanner.Err(); err != nil && err != io.EOF {
-		return err
+	for len(ws) > 0 {
+		if err := postFn(); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 7d16b422074df8fe144aed41c4f5837df3a96836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 07/14] fix: streamed co-occurrence ignored lower-casing and
 counted unknown words as id 0

---
 pkg/corpus/fs/fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index c28860b..c17f809 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -131,6 +131,9 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 		}
 
 		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+			if c.toLower {
+				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
+			}
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
 			if err := c.cooc.Add(id1, id2); err != nil {
-- 
2.43.0


From d8cbd9f86466e82388ba1d778d47449d0f485ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 08/14] fix: BatchWords left its channel open (training hung)
 when reading failed

---
 pkg/corpus/fs/fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index c17f809..434118e 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -56,6 +56,7 @@ func (c *Corpus) IndexedDoc() []int {
 }
 
 func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
+	defer close(ch)
 	cursor, ids := 0, make([]int, batchSize)
 	if err := cpsutil.ReadWord(c.doc, func(word string) error {
 		if c.toLower {
@@ -80,7 +81,6 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 
 	// send left words
 	ch <- ids[:cursor]
-	close(ch)
 	return nil
 }
 
-- 
2.43.0


From e05087ae6a47801654163c2b69e6fd71c26f7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 09/14] fix: learning rate dropped below the configured minimum

---
 pkg/model/lexvec/lexvec.go     | 8 ++++----
 pkg/model/word2vec/word2vec.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index dbdb500..d82b8c1 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -236,11 +236,11 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%l.opts.UpdateLRBatch == 0 {
-			if l.currentlr < l.opts.MinLR {
-				l.currentlr = l.opts.MinLR
-			} else {
-				l.currentlr = l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			lr := l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			if lr < l.opts.MinLR {
+				lr = l.opts.MinLR
 			}
+			l.currentlr = lr
 		}
 		l.verbose.Do(func() {
 			if cnt%l.opts.LogBatch == 0 {
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index fa84d9c..231e54f 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -209,11 +209,11 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%w.opts.UpdateLRBatch == 0 {
-			if w.currentlr < w.opts.MinLR {
-				w.currentlr = w.opts.MinLR
-			} else {
-				w.currentlr = w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			lr := w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			if lr < w.opts.MinLR {
+				lr = w.opts.MinLR
 			}
+			w.currentlr = lr
 		}
 		w.verbose.Do(func() {
 			if cnt%w.opts.LogBatch == 0 {
-- 
2.43.0


From 01b4b48e1c5ccc7206adf7d31528a994d958c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 10/14] fix: sigmoid panicked for inputs just below max_exp

---
 pkg/model/word2vec/sigmoid_table.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/model/word2vec/sigmoid_table.go b/pkg/model/word2vec/sigmoid_table.go
index 2727236..2560005 100644
--- a/pkg/model/word2vec/sigmoid_table.go
+++ b/pkg/model/word2vec/sigmoid_table.go
@@ -41,5 +41,10 @@ func newSigmoidTable() *sigmoidTable {
 // sigmoid returns: f(x) = (x + max_exp) * (exp_table_size / max_exp / 2)
 // If you set x to over |max_exp|, it raises index out of range error.
 func (s *sigmoidTable) sigmoid(x float64) float64 {
-	return s.expTable[int((x+s.maxExp)*s.cache)]
+	i := int((x + s.maxExp) * s.cache)
+	// x just below max_exp is rounded up to the end of the table.
+	if i >= len(s.expTable) {
+		i = len(s.expTable) - 1
+	}
+	return s.expTable[i]
 }
-- 
2.43.0


From c85db0255a33fe950c20aa937a5004f97a6fc347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 11/14] fix: console ignored errors in the right operand and
 searched with a zero vector

---
 pkg/search/console/console.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 54fe785..bae4c2a 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -136,7 +136,7 @@ func (c *Console) evalBinaryExpr(expr *ast.BinaryExpr) error {
 	}
 	yi, err := c.evalAsEmbedding(expr.Y)
 	if err != nil {
-		return nil
+		return err
 	}
 	c.cursor.w1 = xi.Word
 	c.cursor.w2 = yi.Word
-- 
2.43.0


From 58cc0aa14cdbd3f63f1b04ce55d91116427037bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 12/14] fix: cbow updated a different window than the one it
 aggregated

---
 pkg/model/word2vec/model.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/model/word2vec/model.go b/pkg/model/word2vec/model.go
index 818d9ef..c5a299d 100644
--- a/pkg/model/word2vec/model.go
+++ b/pkg/model/word2vec/model.go
@@ -117,19 +117,19 @@ func (mod *cbow) trainOne(
 	for i := 0; i < len(agg); i++ {
 		agg[i], tmp[i] = 0, 0
 	}
-	mod.dowith(doc, pos, param, agg, tmp, mod.aggregate)
+	del := modelutil.NextRandom(mod.window)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)
 	optimizer.optim(doc[pos], lr, agg, tmp)
-	mod.dowith(doc, pos, param, agg, tmp, mod.update)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.update)
 }
 
 func (mod *cbow) dowith(
 	doc []int,
-	pos int,
+	pos, del int,
 	param *matrix.Matrix,
 	agg, tmp []float64,
 	fn func(ctx, agg, tmp []float64),
 ) {
-	del := modelutil.NextRandom(mod.window)
 	for a := del; a < mod.window*2+1-del; a++ {
 		if a == mod.window {
 			continue
-- 
2.43.0


From c135803f41ed00ff468a3b06b13c1e8936064ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 13/14] fix: vector files with lines over 64KB could be saved
 but not loaded

---
 pkg/embedding/embedding.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/embedding/embedding.go b/pkg/embedding/embedding.go
index 0752cc0..e247bf4 100644
--- a/pkg/embedding/embedding.go
+++ b/pkg/embedding/embedding.go
@@ -17,6 +17,7 @@ package embedding
 import (
 	"bufio"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 
@@ -86,6 +87,7 @@ func Load(r io.Reader) (Embeddings, error) {
 
 func parse(r io.Reader, op func(Embedding) error) error {
 	s := bufio.NewScanner(r)
+	s.Buffer(nil, math.MaxInt)
 	for s.Scan() {
 		line := s.Text()
 		if strings.HasPrefix(line, " ") {
-- 
2.43.0


From acae7e758898f42d3826562acae80f789807c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:08 +0000
Subject: [PATCH 14/14] fix: check the output and input files before profiling
 creates cpu.prof

---
 cmd/model/glove/glove.go       | 11 +++++------
 cmd/model/lexvec/lexvec.go     | 11 +++++------
 cmd/model/word2vec/word2vec.go | 11 +++++------
 3 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/cmd/model/glove/glove.go b/cmd/model/glove/glove.go
index fb73414..063a474 100644
--- a/cmd/model/glove/glove.go
+++ b/cmd/model/glove/glove.go
@@ -58,6 +58,11 @@ func fileExists(path string) bool {
 }
 
 func execute(opts glove.Options) error {
+	if fileExists(outputFile) {
+		return errors.Errorf("%s is already existed", outputFile)
+	} else if !fileExists(inputFile) {
+		return errors.Errorf("Not such a file %s", inputFile)
+	}
 	if prof {
 		f, err := os.Create("cpu.prof")
 		if err != nil {
@@ -66,12 +71,6 @@ func execute(opts glove.Options) error {
 		pprof.StartCPUProfile(f)
 		defer pprof.StopCPUProfile()
 	}
-
-	if fileExists(outputFile) {
-		return errors.Errorf("%s is already existed", outputFile)
-	} else if !fileExists(inputFile) {
-		return errors.Errorf("Not such a file %s", inputFile)
-	}
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
diff --git a/cmd/model/lexvec/lexvec.go b/cmd/model/lexvec/lexvec.go
index 97f369c..e18ff1a 100644
--- a/cmd/model/lexvec/lexvec.go
+++ b/cmd/model/lexvec/lexvec.go
@@ -58,6 +58,11 @@ func fileExists(path string) bool {
 }
 
 func execute(opts lexvec.Options) error {
+	if fileExists(outputFile) {
+		return errors.Errorf("%s is already existed", outputFile)
+	} else if !fileExists(inputFile) {
+		return errors.Errorf("Not such a file %s", inputFile)
+	}
 	if prof {
 		f, err := os.Create("cpu.prof")
 		if err != nil {
@@ -66,12 +71,6 @@ func execute(opts lexvec.Options) error {
 		pprof.StartCPUProfile(f)
 		defer pprof.StopCPUProfile()
 	}
-
-	if fileExists(outputFile) {
-		return errors.Errorf("%s is already existed", outputFile)
-	} else if !fileExists(inputFile) {
-		return errors.Errorf("Not such a file %s", inputFile)
-	}
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
diff --git a/cmd/model/word2vec/word2vec.go b/cmd/model/word2vec/word2vec.go
index d6c6ae6..d349b80 100644
--- a/cmd/model/word2vec/word2vec.go
+++ b/cmd/model/word2vec/word2vec.go
@@ -58,6 +58,11 @@ func fileExists(path string) bool {
 }
 
 func execute(opts word2vec.Options) error {
+	if fileExists(outputFile) {
+		return errors.Errorf("%s is already existed", outputFile)
+	} else if !fileExists(inputFile) {
+		return errors.Errorf("%s is not found", inputFile)
+	}
 	if prof {
 		f, err := os.Create("cpu.prof")
 		if err != nil {
@@ -66,12 +71,6 @@ func execute(opts word2vec.Options) error {
 		pprof.StartCPUProfile(f)
 		defer pprof.StopCPUProfile()
 	}
-
-	if fileExists(outputFile) {
-		return errors.Errorf("%s is already existed", outputFile)
-	} else if !fileExists(inputFile) {
-		return errors.Errorf("%s is not found", inputFile)
-	}
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
-- 
2.43.0

