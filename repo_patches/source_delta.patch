From cf70ee64f6790b484051af35eae57add77fe41b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 01/38] fix: report read errors of streamed batches instead of
 hanging

BatchWords left its channel open when reading failed, so that training
waited for ever, and its error was dropped.
---
 pkg/corpus/fs/fs.go            | 2 +-
 pkg/model/lexvec/lexvec.go     | 8 +++++++-
 pkg/model/word2vec/word2vec.go | 8 +++++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index c28860b..f734703 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -56,6 +56,7 @@ func (c *Corpus) IndexedDoc() []int {
 }
 
 func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
+	defer close(ch)
 	cursor, ids := 0, make([]int, batchSize)
 	if err := cpsutil.ReadWord(c.doc, func(word string) error {
 		if c.toLower {
@@ -80,7 +81,6 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 
 	// send left words
 	ch <- ids[:cursor]
-	close(ch)
 	return nil
 }
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 09004e7..f4c3c68 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -158,7 +158,10 @@ func (l *lexvec) batchTrain() error {
 		wg := &sync.WaitGroup{}
 
 		in := make(chan []int, l.opts.Goroutines)
-		go l.corpus.BatchWords(in, l.opts.BatchSize)
+		readErr := make(chan error, 1)
+		go func() {
+			readErr <- l.corpus.BatchWords(in, l.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go l.trainPerThread(doc, items, trained, sem, wg)
@@ -166,6 +169,9 @@ func (l *lexvec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		if err := <-readErr; err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index fa84d9c..6fb4294 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -167,7 +167,10 @@ func (w *word2vec) batchTrain() error {
 		wg := &sync.WaitGroup{}
 
 		in := make(chan []int, w.opts.Goroutines)
-		go w.corpus.BatchWords(in, w.opts.BatchSize)
+		readErr := make(chan error, 1)
+		go func() {
+			readErr <- w.corpus.BatchWords(in, w.opts.BatchSize)
+		}()
 		for doc := range in {
 			wg.Add(1)
 			go w.trainPerThread(doc, trained, sem, wg)
@@ -175,6 +178,9 @@ func (w *word2vec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		if err := <-readErr; err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From fa47eec2e38a08127806035708ba6d0cfe839a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 02/38] fix: report errors of rewinding the corpus

---
 pkg/corpus/cpsutil/cpsutil.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index 020b098..dde1dbe 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -28,7 +28,9 @@ func scanner(r io.Reader) *bufio.Scanner {
 }
 
 func ReadWord(r io.ReadSeeker, fn func(string) error) error {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
 	scanner := scanner(r)
 	for scanner.Scan() {
 		if err := fn(scanner.Text()); err != nil {
@@ -44,7 +46,9 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 }
 
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
 	scanner := scanner(r)
 	var (
 		axis string
-- 
2.43.0


From 1418f2a8b2a2d24d1f1b5d6e365b27f59e7804fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 03/38] fix: wait for the progress observer at the end of each
 iteration

It kept running, printing and setting the learning rate after Train had
returned or the next iteration had started.
---
 pkg/model/glove/glove.go       |  8 ++++++--
 pkg/model/lexvec/lexvec.go     | 16 ++++++++++++----
 pkg/model/word2vec/word2vec.go | 16 ++++++++++++----
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index f3b0d18..95839a3 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -116,8 +116,11 @@ func (g *glove) train() error {
 	)
 
 	for i := 0; i < g.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go g.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			defer close(observed)
+			g.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(g.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -130,6 +133,7 @@ func (g *glove) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index f4c3c68..784a215 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -126,8 +126,11 @@ func (l *lexvec) train() error {
 	)
 
 	for i := 1; i <= l.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go l.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			defer close(observed)
+			l.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(l.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -140,6 +143,7 @@ func (l *lexvec) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
@@ -151,8 +155,11 @@ func (l *lexvec) batchTrain() error {
 	}
 
 	for i := 1; i <= l.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go l.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			defer close(observed)
+			l.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(l.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -169,6 +176,7 @@ func (l *lexvec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 		if err := <-readErr; err != nil {
 			return err
 		}
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 6fb4294..b5b332f 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -140,8 +140,11 @@ func (w *word2vec) train() error {
 	)
 
 	for i := 1; i <= w.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go w.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			defer close(observed)
+			w.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(w.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -154,14 +157,18 @@ func (w *word2vec) train() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 	}
 	return nil
 }
 
 func (w *word2vec) batchTrain() error {
 	for i := 1; i <= w.opts.Iter; i++ {
-		trained, clk := make(chan struct{}), clock.New()
-		go w.observe(trained, clk)
+		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
+		go func() {
+			defer close(observed)
+			w.observe(trained, clk)
+		}()
 
 		sem := semaphore.NewWeighted(int64(w.opts.Goroutines))
 		wg := &sync.WaitGroup{}
@@ -178,6 +185,7 @@ func (w *word2vec) batchTrain() error {
 
 		wg.Wait()
 		close(trained)
+		<-observed
 		if err := <-readErr; err != nil {
 			return err
 		}
-- 
2.43.0


From aec283986ec1dbba73a3081fd21d83cfc04f2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 04/38] fix: start a worker only when one may run

Streaming started one goroutine per batch at once, each holding its batch,
so a fast reader kept the whole corpus in memory.
---
 pkg/model/lexvec/lexvec.go     | 10 ++++++----
 pkg/model/word2vec/word2vec.go | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 784a215..ef275bb 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -136,6 +136,9 @@ func (l *lexvec) train() error {
 		wg := &sync.WaitGroup{}
 
 		for i := 0; i < l.opts.Goroutines; i++ {
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			s, e := indexPerThread[i], indexPerThread[i+1]
 			go l.trainPerThread(doc[s:e], items, trained, sem, wg)
@@ -170,6 +173,9 @@ func (l *lexvec) batchTrain() error {
 			readErr <- l.corpus.BatchWords(in, l.opts.BatchSize)
 		}()
 		for doc := range in {
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			go l.trainPerThread(doc, items, trained, sem, wg)
 		}
@@ -196,10 +202,6 @@ func (l *lexvec) trainPerThread(
 		sem.Release(1)
 	}()
 
-	if err := sem.Acquire(context.Background(), 1); err != nil {
-		return err
-	}
-
 	for pos, id := range doc {
 		if l.subsampler.Trial(id) {
 			l.trainOne(doc, pos, items)
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index b5b332f..0d45aff 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -150,6 +150,9 @@ func (w *word2vec) train() error {
 		wg := &sync.WaitGroup{}
 
 		for i := 0; i < w.opts.Goroutines; i++ {
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			s, e := indexPerThread[i], indexPerThread[i+1]
 			go w.trainPerThread(doc[s:e], trained, sem, wg)
@@ -179,6 +182,9 @@ func (w *word2vec) batchTrain() error {
 			readErr <- w.corpus.BatchWords(in, w.opts.BatchSize)
 		}()
 		for doc := range in {
+			if err := sem.Acquire(context.Background(), 1); err != nil {
+				return err
+			}
 			wg.Add(1)
 			go w.trainPerThread(doc, trained, sem, wg)
 		}
@@ -204,10 +210,6 @@ func (w *word2vec) trainPerThread(
 		sem.Release(1)
 	}()
 
-	if err := sem.Acquire(context.Background(), 1); err != nil {
-		return err
-	}
-
 	for pos, id := range doc {
 		if w.subsampler.Trial(id) {
 			w.mod.trainOne(doc, pos, w.currentlr, w.param, w.optimizer)
-- 
2.43.0


From d123e6d80062a84b2acce87a551aebe5ac6e9aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 05/38] fix: return write errors when saving vectors

---
 pkg/model/modelutil/vector/vector.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/model/modelutil/vector/vector.go b/pkg/model/modelutil/vector/vector.go
index ebc580d..d06db51 100644
--- a/pkg/model/modelutil/vector/vector.go
+++ b/pkg/model/modelutil/vector/vector.go
@@ -43,7 +43,6 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 		return fmt.Errorf("different for length of dic and row of matrix: %d, %d", dic.Len(), mat.Row())
 	}
 	writer := bufio.NewWriter(f)
-	defer writer.Flush()
 
 	var buf bytes.Buffer
 	clk := clock.New()
@@ -60,7 +59,12 @@ func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *
 			}
 		})
 	}
-	writer.WriteString(fmt.Sprintf("%v", buf.String()))
+	if _, err := writer.WriteString(buf.String()); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	verbose.Do(func() {
 		fmt.Printf("saved %d words %v\r\n", dic.Len(), clk.AllElapsed())
 	})
-- 
2.43.0


From 2795411bf8196010ae2990b11bd7375447385c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 06/38] fix: build the cached path of a node once

---
 pkg/corpus/dictionary/node/node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 506f48b..288fe52 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -14,7 +14,10 @@
 
 package node
 
+import "sync"
+
 type Node struct {
+	once   sync.Once
 	cache  []*Node
 	Parent *Node
 	Val    int
@@ -24,7 +27,7 @@ type Node struct {
 }
 
 func (n *Node) GetPath(depth int) []*Node {
-	if n.cache == nil {
+	n.once.Do(func() {
 		re := func(nodes []*Node) {
 			for i, j := 0, len(nodes)-1; i < j; i, j = i+1, j-1 {
 				nodes[i], nodes[j] = nodes[j], nodes[i]
@@ -35,7 +38,7 @@ func (n *Node) GetPath(depth int) []*Node {
 			n.cache = append(n.cache, p)
 		}
 		re(n.cache)
-	}
+	})
 	if depth > len(n.cache) {
 		depth = len(n.cache)
 	}
-- 
2.43.0


From ee297885329ce62adc6b688e486c2616aa6201cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 07/38] fix: track the full tree path with max depth 0

---
 pkg/corpus/dictionary/node/node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/dictionary/node/node.go b/pkg/corpus/dictionary/node/node.go
index 288fe52..ff026b7 100644
--- a/pkg/corpus/dictionary/node/node.go
+++ b/pkg/corpus/dictionary/node/node.go
@@ -39,8 +39,9 @@ func (n *Node) GetPath(depth int) []*Node {
 		}
 		re(n.cache)
 	})
-	if depth > len(n.cache) {
+	// a depth of 0 or less means the full path from root to n.
+	if depth <= 0 || depth > len(n.cache) {
 		depth = len(n.cache)
 	}
-	return n.cache[:depth]
+	return n.cache[:depth:depth]
 }
-- 
2.43.0


From ede9dd76bacd6db54b27389d7adb248bf2b58dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 08/38] fix: keep the learning rate at or above its minimum

---
 pkg/model/lexvec/lexvec.go     | 8 ++++----
 pkg/model/word2vec/word2vec.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index ef275bb..fad7ae4 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -252,11 +252,11 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%l.opts.UpdateLRBatch == 0 {
-			if l.currentlr < l.opts.MinLR {
-				l.currentlr = l.opts.MinLR
-			} else {
-				l.currentlr = l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			lr := l.opts.Initlr * (1.0 - float64(cnt)/float64(l.corpus.Len()))
+			if lr < l.opts.MinLR {
+				lr = l.opts.MinLR
 			}
+			l.currentlr = lr
 		}
 		l.verbose.Do(func() {
 			if cnt%l.opts.LogBatch == 0 {
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 0d45aff..cd651b1 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -225,11 +225,11 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 	for range trained {
 		cnt++
 		if cnt%w.opts.UpdateLRBatch == 0 {
-			if w.currentlr < w.opts.MinLR {
-				w.currentlr = w.opts.MinLR
-			} else {
-				w.currentlr = w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			lr := w.opts.Initlr * (1.0 - float64(cnt)/float64(w.corpus.Len()))
+			if lr < w.opts.MinLR {
+				lr = w.opts.MinLR
 			}
+			w.currentlr = lr
 		}
 		w.verbose.Do(func() {
 			if cnt%w.opts.LogBatch == 0 {
-- 
2.43.0


From b3d1074504cffd314c8667c28bb43453dac7cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 09/38] fix: start every pass with the initial learning rate

---
 pkg/model/lexvec/lexvec.go     | 2 ++
 pkg/model/word2vec/word2vec.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index fad7ae4..82446ad 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -126,6 +126,7 @@ func (l *lexvec) train() error {
 	)
 
 	for i := 1; i <= l.opts.Iter; i++ {
+		l.currentlr = l.opts.Initlr
 		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
 		go func() {
 			defer close(observed)
@@ -158,6 +159,7 @@ func (l *lexvec) batchTrain() error {
 	}
 
 	for i := 1; i <= l.opts.Iter; i++ {
+		l.currentlr = l.opts.Initlr
 		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
 		go func() {
 			defer close(observed)
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index cd651b1..d8051e2 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -140,6 +140,7 @@ func (w *word2vec) train() error {
 	)
 
 	for i := 1; i <= w.opts.Iter; i++ {
+		w.currentlr = w.opts.Initlr
 		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
 		go func() {
 			defer close(observed)
@@ -167,6 +168,7 @@ func (w *word2vec) train() error {
 
 func (w *word2vec) batchTrain() error {
 	for i := 1; i <= w.opts.Iter; i++ {
+		w.currentlr = w.opts.Initlr
 		trained, observed, clk := make(chan struct{}), make(chan struct{}), clock.New()
 		go func() {
 			defer close(observed)
-- 
2.43.0


From 1484cd423476b725d43d4c0f3d96260bbb4152c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 10/38] fix: pair the words at the end of the corpus and of
 short corpora

---
 pkg/corpus/cpsutil/cpsutil.go | 47 ++++++++++-------------------------
 1 file changed, 13 insertions(+), 34 deletions(-)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index dde1dbe..b57101a 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -46,15 +46,11 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 }
 
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
-	if _, err := r.Seek(0, io.SeekStart); err != nil {
-		return err
-	}
-	scanner := scanner(r)
-	var (
-		axis string
-		ws   []string = make([]string, n)
-	)
+	// ws holds the words waiting for the rest of their forward context.
+	var ws []string
 	postFn := func() error {
+		axis := ws[0]
+		ws = ws[1:]
 		for _, w := range ws {
 			if err := fn(axis, w); err != nil {
 				return err
@@ -62,37 +58,20 @@ func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string)
 		}
 		return nil
 	}
-	for {
-		if axis == "" {
-			if !scanner.Scan() {
-				break
-			}
-			axis = scanner.Text()
-			for i := 0; i < n; i++ {
-				if !scanner.Scan() {
-					break
-				}
-				ws[i] = scanner.Text()
-			}
-		} else {
-			axis = ws[0]
-			ws = ws[1:]
-			if !scanner.Scan() {
-				break
-			}
-			ws = append(ws, scanner.Text())
+	if err := ReadWord(r, func(word string) error {
+		ws = append(ws, word)
+		if len(ws) <= n {
+			return nil
 		}
+		return postFn()
+	}); err != nil {
+		return err
+	}
+	for len(ws) > 0 {
 		if err := postFn(); err != nil {
 			return err
 		}
 	}
-	if err := postFn(); err != nil {
-		return err
-	}
-
-	if err := scanner.Err(); err != nil && err != io.EOF {
-		return err
-	}
 
 	return nil
 }
-- 
2.43.0


From 517d47801d9ec0e182d2d4881938b9e2e0b7ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 11/38] fix: fold words to lower case when counting
 co-occurrences from file

---
 pkg/corpus/fs/fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index f734703..434118e 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -131,6 +131,9 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 		}
 
 		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+			if c.toLower {
+				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
+			}
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
 			if err := c.cooc.Add(id1, id2); err != nil {
-- 
2.43.0


From 36b89bdb7a8f8d4ac0c61584bac4c41213c6f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 12/38] fix: weight proximity counts by the distance of words

---
 pkg/corpus/cooccurrence/cooccurrence.go | 11 ++++++++---
 pkg/corpus/cpsutil/cpsutil.go           | 11 +++++++++--
 pkg/corpus/fs/fs.go                     |  4 ++--
 pkg/corpus/memory/memory.go             |  2 +-
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/corpus/cooccurrence/cooccurrence.go b/pkg/corpus/cooccurrence/cooccurrence.go
index 6cd2449..633910e 100644
--- a/pkg/corpus/cooccurrence/cooccurrence.go
+++ b/pkg/corpus/cooccurrence/cooccurrence.go
@@ -55,18 +55,23 @@ func (c *Cooccurrence) EncodedMatrix() map[uint64]float64 {
 	return c.ma
 }
 
+// Add counts left and right as neighbors next to each other.
 func (c *Cooccurrence) Add(left, right int) error {
+	return c.AddWithDistance(left, right, 1)
+}
+
+// AddWithDistance counts left and right being the distance of words apart.
+func (c *Cooccurrence) AddWithDistance(left, right, distance int) error {
 	enc := encode.EncodeBigram(uint64(left), uint64(right))
 	var val float64
 	switch c.typ {
 	case Increment:
 		val = 1
 	case Proximity:
-		div := left - right
-		if div == 0 {
+		if distance == 0 {
 			return errors.Errorf("Divide by zero on counting co-occurrence")
 		}
-		val = 1. / math.Abs(float64(div))
+		val = 1. / math.Abs(float64(distance))
 	default:
 		return invalidCountTypeError(c.typ)
 	}
diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index b57101a..ab254a1 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -46,13 +46,20 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 }
 
 func ReadWordWithForwardContext(r io.ReadSeeker, n int, fn func(string, string) error) error {
+	return ReadWordWithForwardDistance(r, n, func(axis, w string, _ int) error {
+		return fn(axis, w)
+	})
+}
+
+// ReadWordWithForwardDistance also passes the distance between two words to fn.
+func ReadWordWithForwardDistance(r io.ReadSeeker, n int, fn func(string, string, int) error) error {
 	// ws holds the words waiting for the rest of their forward context.
 	var ws []string
 	postFn := func() error {
 		axis := ws[0]
 		ws = ws[1:]
-		for _, w := range ws {
-			if err := fn(axis, w); err != nil {
+		for i, w := range ws {
+			if err := fn(axis, w, i+1); err != nil {
 				return err
 			}
 		}
diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 434118e..0fd5afd 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -130,13 +130,13 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 			return err
 		}
 
-		if err = cpsutil.ReadWordWithForwardContext(c.doc, with.Window, func(w1, w2 string) error {
+		if err = cpsutil.ReadWordWithForwardDistance(c.doc, with.Window, func(w1, w2 string, distance int) error {
 			if c.toLower {
 				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
 			}
 			id1, _ := c.dic.ID(w1)
 			id2, _ := c.dic.ID(w2)
-			if err := c.cooc.Add(id1, id2); err != nil {
+			if err := c.cooc.AddWithDistance(id1, id2, distance); err != nil {
 				return err
 			}
 			cursor++
diff --git a/pkg/corpus/memory/memory.go b/pkg/corpus/memory/memory.go
index 41c5f2e..5ff5845 100644
--- a/pkg/corpus/memory/memory.go
+++ b/pkg/corpus/memory/memory.go
@@ -118,7 +118,7 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 
 		for i := 0; i < len(c.idoc); i++ {
 			for j := i + 1; j < len(c.idoc) && j <= i+with.Window; j++ {
-				if err = c.cooc.Add(c.idoc[i], c.idoc[j]); err != nil {
+				if err = c.cooc.AddWithDistance(c.idoc[i], c.idoc[j], j-i); err != nil {
 					return err
 				}
 				cursor++
-- 
2.43.0


From b428ebf8021ea97f6c0fe0749b55c6cf329ce68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 13/38] fix: drop blank entries from the neighbors

---
 pkg/search/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index ed5c89a..0dd49dc 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -129,6 +129,7 @@ func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string
 	for i := 0; i < len(neighbors); i++ {
 		if neighbors[i].Word == "" {
 			k = i
+			break
 		}
 	}
 
-- 
2.43.0


From e7a4635443d4140f73c5e0696aee9389a4bca3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 14/38] fix: limit the number of neighbors to the number of
 items

---
 pkg/search/search.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index 0dd49dc..5faf6e7 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -92,6 +92,12 @@ func (s *Searcher) SearchVector(query []float64, k int) (Neighbors, error) {
 }
 
 func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string) (Neighbors, error) {
+	if k > len(s.Items) {
+		k = len(s.Items)
+	}
+	if k <= 0 {
+		return Neighbors{}, nil
+	}
 	neighbors := make(Neighbors, k)
 
 	// Map to quickly check if a word is to be ignored.
-- 
2.43.0


From 12f2f52a98cd6107e8e7e197db63c102582ebd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 15/38] fix: end the console when its input ends or fails

---
 pkg/search/console/console.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 54fe785..8da7235 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -19,6 +19,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io"
 
 	"github.com/peterh/liner"
 	"github.com/pkg/errors"
@@ -65,8 +66,10 @@ func (c *Console) Run() error {
 	defer c.Close()
 	for {
 		l, err := c.Prompt(">> ")
-		if err != nil {
-			fmt.Println("error: ", err)
+		if err == io.EOF {
+			return nil
+		} else if err != nil {
+			return err
 		}
 		switch l {
 		case "exit":
-- 
2.43.0


From a70dbbaf7d07f35c293e8a9cdbe5824da6585c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 16/38] fix: report errors of the right operand in the console

---
 pkg/search/console/console.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 8da7235..45b749e 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -139,7 +139,7 @@ func (c *Console) evalBinaryExpr(expr *ast.BinaryExpr) error {
 	}
 	yi, err := c.evalAsEmbedding(expr.Y)
 	if err != nil {
-		return nil
+		return err
 	}
 	c.cursor.w1 = xi.Word
 	c.cursor.w2 = yi.Word
-- 
2.43.0


From 1aca5e46f0392ecac05b746eca6c114bc9972190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 17/38] fix: make the output of training commands appear only
 when complete

---
 cmd/model/cmdutil/output.go    | 53 ++++++++++++++++++++++++++++++++++
 cmd/model/glove/glove.go       | 42 ++++++++++++---------------
 cmd/model/lexvec/lexvec.go     | 42 ++++++++++++---------------
 cmd/model/word2vec/word2vec.go | 42 ++++++++++++---------------
 4 files changed, 107 insertions(+), 72 deletions(-)
 create mode 100644 cmd/model/cmdutil/output.go

diff --git a/cmd/model/cmdutil/output.go b/cmd/model/cmdutil/output.go
new file mode 100644
index 0000000..f961d46
--- /dev/null
+++ b/cmd/model/cmdutil/output.go
@@ -0,0 +1,53 @@
+// Copyright © 2020 wego authors
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package cmdutil
+
+import (
+	"fmt"
+	"io"
+	"os"
+
+	"github.com/pkg/errors"
+)
+
+// FileExists reports whether path is in use. A file which cannot be examined counts as existing.
+func FileExists(path string) bool {
+	_, err := os.Stat(path)
+	return !os.IsNotExist(err)
+}
+
+// SaveOutput saves what fn writes to the file of path. The file appears only after it is
+// complete: until then the contents go to a temporary file, which is removed on failure.
+func SaveOutput(path string, fn func(io.Writer) error) error {
+	tmp := fmt.Sprintf("%s.%d.tmp", path, os.Getpid())
+	output, err := os.Create(tmp)
+	if err != nil {
+		return err
+	}
+	err = fn(output)
+	if cerr := output.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil && FileExists(path) {
+		err = errors.Errorf("%s is already existed", path)
+	}
+	if err == nil {
+		err = os.Rename(tmp, path)
+	}
+	if err != nil {
+		os.Remove(tmp)
+	}
+	return err
+}
diff --git a/cmd/model/glove/glove.go b/cmd/model/glove/glove.go
index fb73414..e819169 100644
--- a/cmd/model/glove/glove.go
+++ b/cmd/model/glove/glove.go
@@ -15,6 +15,7 @@
 package glove
 
 import (
+	"io"
 	"os"
 	"path/filepath"
 	"runtime/pprof"
@@ -52,11 +53,6 @@ func New() *cobra.Command {
 	return cmd
 }
 
-func fileExists(path string) bool {
-	_, err := os.Stat(path)
-	return err == nil
-}
-
 func execute(opts glove.Options) error {
 	if prof {
 		f, err := os.Create("cpu.prof")
@@ -67,29 +63,27 @@ func execute(opts glove.Options) error {
 		defer pprof.StopCPUProfile()
 	}
 
-	if fileExists(outputFile) {
+	if cmdutil.FileExists(outputFile) {
 		return errors.Errorf("%s is already existed", outputFile)
-	} else if !fileExists(inputFile) {
+	} else if !cmdutil.FileExists(inputFile) {
 		return errors.Errorf("Not such a file %s", inputFile)
 	}
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
-	output, err := os.Create(outputFile)
-	if err != nil {
-		return err
-	}
-	input, err := os.Open(inputFile)
-	if err != nil {
-		return err
-	}
-	defer input.Close()
-	mod, err := glove.NewForOptions(opts)
-	if err != nil {
-		return err
-	}
-	if err := mod.Train(input); err != nil {
-		return err
-	}
-	return mod.Save(output, vectorType)
+	return cmdutil.SaveOutput(outputFile, func(output io.Writer) error {
+		input, err := os.Open(inputFile)
+		if err != nil {
+			return err
+		}
+		defer input.Close()
+		mod, err := glove.NewForOptions(opts)
+		if err != nil {
+			return err
+		}
+		if err := mod.Train(input); err != nil {
+			return err
+		}
+		return mod.Save(output, vectorType)
+	})
 }
diff --git a/cmd/model/lexvec/lexvec.go b/cmd/model/lexvec/lexvec.go
index 97f369c..a1a1e0a 100644
--- a/cmd/model/lexvec/lexvec.go
+++ b/cmd/model/lexvec/lexvec.go
@@ -15,6 +15,7 @@
 package lexvec
 
 import (
+	"io"
 	"os"
 	"path/filepath"
 	"runtime/pprof"
@@ -52,11 +53,6 @@ func New() *cobra.Command {
 	return cmd
 }
 
-func fileExists(path string) bool {
-	_, err := os.Stat(path)
-	return err == nil
-}
-
 func execute(opts lexvec.Options) error {
 	if prof {
 		f, err := os.Create("cpu.prof")
@@ -67,29 +63,27 @@ func execute(opts lexvec.Options) error {
 		defer pprof.StopCPUProfile()
 	}
 
-	if fileExists(outputFile) {
+	if cmdutil.FileExists(outputFile) {
 		return errors.Errorf("%s is already existed", outputFile)
-	} else if !fileExists(inputFile) {
+	} else if !cmdutil.FileExists(inputFile) {
 		return errors.Errorf("Not such a file %s", inputFile)
 	}
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
-	output, err := os.Create(outputFile)
-	if err != nil {
-		return err
-	}
-	input, err := os.Open(inputFile)
-	if err != nil {
-		return err
-	}
-	defer input.Close()
-	mod, err := lexvec.NewForOptions(opts)
-	if err != nil {
-		return err
-	}
-	if err := mod.Train(input); err != nil {
-		return err
-	}
-	return mod.Save(output, vectorType)
+	return cmdutil.SaveOutput(outputFile, func(output io.Writer) error {
+		input, err := os.Open(inputFile)
+		if err != nil {
+			return err
+		}
+		defer input.Close()
+		mod, err := lexvec.NewForOptions(opts)
+		if err != nil {
+			return err
+		}
+		if err := mod.Train(input); err != nil {
+			return err
+		}
+		return mod.Save(output, vectorType)
+	})
 }
diff --git a/cmd/model/word2vec/word2vec.go b/cmd/model/word2vec/word2vec.go
index d6c6ae6..90db43a 100644
--- a/cmd/model/word2vec/word2vec.go
+++ b/cmd/model/word2vec/word2vec.go
@@ -15,6 +15,7 @@
 package word2vec
 
 import (
+	"io"
 	"os"
 	"path/filepath"
 	"runtime/pprof"
@@ -52,11 +53,6 @@ func New() *cobra.Command {
 	return cmd
 }
 
-func fileExists(path string) bool {
-	_, err := os.Stat(path)
-	return err == nil
-}
-
 func execute(opts word2vec.Options) error {
 	if prof {
 		f, err := os.Create("cpu.prof")
@@ -67,29 +63,27 @@ func execute(opts word2vec.Options) error {
 		defer pprof.StopCPUProfile()
 	}
 
-	if fileExists(outputFile) {
+	if cmdutil.FileExists(outputFile) {
 		return errors.Errorf("%s is already existed", outputFile)
-	} else if !fileExists(inputFile) {
+	} else if !cmdutil.FileExists(inputFile) {
 		return errors.Errorf("%s is not found", inputFile)
 	}
 	if err := os.MkdirAll(filepath.Dir(outputFile), 0777); err != nil {
 		return err
 	}
-	output, err := os.Create(outputFile)
-	if err != nil {
-		return err
-	}
-	input, err := os.Open(inputFile)
-	if err != nil {
-		return err
-	}
-	defer input.Close()
-	mod, err := word2vec.NewForOptions(opts)
-	if err != nil {
-		return err
-	}
-	if err := mod.Train(input); err != nil {
-		return err
-	}
-	return mod.Save(output, vectorType)
+	return cmdutil.SaveOutput(outputFile, func(output io.Writer) error {
+		input, err := os.Open(inputFile)
+		if err != nil {
+			return err
+		}
+		defer input.Close()
+		mod, err := word2vec.NewForOptions(opts)
+		if err != nil {
+			return err
+		}
+		if err := mod.Train(input); err != nil {
+			return err
+		}
+		return mod.Save(output, vectorType)
+	})
 }
-- 
2.43.0


From 9ac32fc61176e8e838efc291ddb8f3064995db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 18/38] fix: aggregate context vectors for agg, not for single

---
 pkg/model/glove/glove.go   | 2 +-
 pkg/model/lexvec/lexvec.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 95839a3..8fef475 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -185,7 +185,7 @@ func (g *glove) Save(f io.Writer, typ vector.Type) error {
 func (g *glove) WordVector(typ vector.Type) *matrix.Matrix {
 	var mat *matrix.Matrix
 	dic := g.corpus.Dictionary()
-	if typ == vector.Agg {
+	if typ != vector.Agg {
 		mat = matrix.New(dic.Len(), g.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < g.opts.Dim; i++ {
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 82446ad..d7d6e3f 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -278,7 +278,7 @@ func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
 func (l *lexvec) WordVector(typ vector.Type) *matrix.Matrix {
 	var mat *matrix.Matrix
 	dic := l.corpus.Dictionary()
-	if typ == vector.Agg {
+	if typ != vector.Agg {
 		mat = matrix.New(dic.Len(), l.opts.Dim,
 			func(row int, vec []float64) {
 				for i := 0; i < l.opts.Dim; i++ {
-- 
2.43.0


From f53738caec164b68306d7735aa351c3979c88ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 19/38] fix: use one window for the contexts of a cbow update

---
 pkg/model/word2vec/model.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/model/word2vec/model.go b/pkg/model/word2vec/model.go
index 818d9ef..c5a299d 100644
--- a/pkg/model/word2vec/model.go
+++ b/pkg/model/word2vec/model.go
@@ -117,19 +117,19 @@ func (mod *cbow) trainOne(
 	for i := 0; i < len(agg); i++ {
 		agg[i], tmp[i] = 0, 0
 	}
-	mod.dowith(doc, pos, param, agg, tmp, mod.aggregate)
+	del := modelutil.NextRandom(mod.window)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.aggregate)
 	optimizer.optim(doc[pos], lr, agg, tmp)
-	mod.dowith(doc, pos, param, agg, tmp, mod.update)
+	mod.dowith(doc, pos, del, param, agg, tmp, mod.update)
 }
 
 func (mod *cbow) dowith(
 	doc []int,
-	pos int,
+	pos, del int,
 	param *matrix.Matrix,
 	agg, tmp []float64,
 	fn func(ctx, agg, tmp []float64),
 ) {
-	del := modelutil.NextRandom(mod.window)
 	for a := del; a < mod.window*2+1-del; a++ {
 		if a == mod.window {
 			continue
-- 
2.43.0


From 468d2bffea09298877bfeead1220a7c76a48162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 20/38] fix: apply the count limits of words to glove

---
 pkg/model/glove/item.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/model/glove/item.go b/pkg/model/glove/item.go
index 9f1950f..5dd9362 100644
--- a/pkg/model/glove/item.go
+++ b/pkg/model/glove/item.go
@@ -20,6 +20,7 @@ import (
 
 	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
 	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
+	"github.com/ynqa/wego/pkg/corpus/cpsutil"
 	"github.com/ynqa/wego/pkg/util/clock"
 )
 
@@ -31,20 +32,27 @@ type item struct {
 
 func (g *glove) makeItems(cooc *co.Cooccurrence) []item {
 	em := cooc.EncodedMatrix()
-	res, idx, clk := make([]item, len(em)), 0, clock.New()
+	res, idx, clk := make([]item, 0, len(em)), 0, clock.New()
+	dic, filters := g.corpus.Dictionary(), cpsutil.Filters{
+		cpsutil.MaxCount(g.opts.MaxCount),
+		cpsutil.MinCount(g.opts.MinCount),
+	}
 	for enc, f := range em {
 		u1, u2 := encode.DecodeBigram(enc)
 		l1, l2 := int(u1), int(u2)
+		if filters.Any(l1, dic) || filters.Any(l2, dic) {
+			continue
+		}
 		coef := 1.
 		if f < float64(g.opts.Xmax) {
 			coef = math.Pow(f/float64(g.opts.Xmax), g.opts.Alpha)
 		}
-		res[idx] = item{
+		res = append(res, item{
 			l1:   l1,
 			l2:   l2,
 			f:    math.Log(f),
 			coef: coef,
-		}
+		})
 		idx++
 		g.verbose.Do(func() {
 			if idx%g.opts.LogBatch == 0 {
-- 
2.43.0


From 428057bc0d3ca859eabd7146bf36dfba7b6be97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 21/38] fix: keep the index of the sigmoid table in range

---
 pkg/model/word2vec/sigmoid_table.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/model/word2vec/sigmoid_table.go b/pkg/model/word2vec/sigmoid_table.go
index 2727236..6c41e69 100644
--- a/pkg/model/word2vec/sigmoid_table.go
+++ b/pkg/model/word2vec/sigmoid_table.go
@@ -39,7 +39,13 @@ func newSigmoidTable() *sigmoidTable {
 }
 
 // sigmoid returns: f(x) = (x + max_exp) * (exp_table_size / max_exp / 2)
-// If you set x to over |max_exp|, it raises index out of range error.
+// If you set x to over |max_exp|, it returns the value at the end of the table.
 func (s *sigmoidTable) sigmoid(x float64) float64 {
-	return s.expTable[int((x+s.maxExp)*s.cache)]
+	i := int((x + s.maxExp) * s.cache)
+	if i < 0 {
+		i = 0
+	} else if i >= s.expTableSize {
+		i = s.expTableSize - 1
+	}
+	return s.expTable[i]
 }
-- 
2.43.0


From feee66333b36484c2e1fd66927470a2a0c0a5514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 22/38] fix: load vectors from lines of any length

---
 pkg/embedding/embedding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/embedding/embedding.go b/pkg/embedding/embedding.go
index 0752cc0..03d2608 100644
--- a/pkg/embedding/embedding.go
+++ b/pkg/embedding/embedding.go
@@ -17,6 +17,7 @@ package embedding
 import (
 	"bufio"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 
@@ -86,6 +87,8 @@ func Load(r io.Reader) (Embeddings, error) {
 
 func parse(r io.Reader, op func(Embedding) error) error {
 	s := bufio.NewScanner(r)
+	// the length of lines is not limited.
+	s.Buffer(nil, math.MaxInt32)
 	for s.Scan() {
 		line := s.Text()
 		if strings.HasPrefix(line, " ") {
-- 
2.43.0


From 59aa55a49f7fffb762ef20cf3ea2a87c3be7b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 23/38] fix: read words of any length

---
 pkg/corpus/cpsutil/cpsutil.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index ab254a1..e062ee6 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -17,12 +17,15 @@ package cpsutil
 import (
 	"bufio"
 	"io"
+	"math"
 
 	"github.com/ynqa/wego/pkg/corpus/dictionary"
 )
 
 func scanner(r io.Reader) *bufio.Scanner {
 	s := bufio.NewScanner(r)
+	// the length of words is not limited.
+	s.Buffer(nil, math.MaxInt32)
 	s.Split(bufio.ScanWords)
 	return s
 }
-- 
2.43.0


From 5be88a9a24df11e9cf4a4c9cff99fbb6143a92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 24/38] fix: refuse options which no model can be trained with

---
 pkg/model/glove/glove.go       |  4 +++-
 pkg/model/glove/options.go     | 18 ++++++++++++++++++
 pkg/model/lexvec/lexvec.go     |  4 +++-
 pkg/model/lexvec/options.go    | 25 +++++++++++++++++++++++++
 pkg/model/word2vec/options.go  | 24 ++++++++++++++++++++++++
 pkg/model/word2vec/word2vec.go |  4 +++-
 6 files changed, 76 insertions(+), 3 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 8fef475..b02518e 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -56,7 +56,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	v := verbose.New(opts.Verbose)
 	return &glove{
 		opts: opts,
diff --git a/pkg/model/glove/options.go b/pkg/model/glove/options.go
index a39aa90..75d963a 100644
--- a/pkg/model/glove/options.go
+++ b/pkg/model/glove/options.go
@@ -17,6 +17,7 @@ import (
 	"fmt"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
 )
@@ -90,6 +91,23 @@ func DefaultOptions() Options {
 	}
 }
 
+// validate refuses the options which no model can be trained with.
+func (opts Options) validate() error {
+	if opts.Dim < 1 {
+		return errors.Errorf("invalid dimension: %d must be over 0", opts.Dim)
+	}
+	if opts.Goroutines < 1 {
+		return errors.Errorf("invalid number of goroutine: %d must be over 0", opts.Goroutines)
+	}
+	if opts.Window < 1 {
+		return errors.Errorf("invalid window size: %d must be over 0", opts.Window)
+	}
+	if opts.Verbose && opts.LogBatch < 1 {
+		return errors.Errorf("invalid batch size to log: %d must be over 0", opts.LogBatch)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().Float64Var(&opts.Alpha, "alpha", defaultAlpha, "exponent of weighting function")
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index d7d6e3f..c13304b 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -59,7 +59,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	v := verbose.New(opts.Verbose)
 	return &lexvec{
 		opts: opts,
diff --git a/pkg/model/lexvec/options.go b/pkg/model/lexvec/options.go
index 3e0cf7d..3c737cb 100644
--- a/pkg/model/lexvec/options.go
+++ b/pkg/model/lexvec/options.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 )
 
@@ -94,6 +95,30 @@ func DefaultOptions() Options {
 		Window:             defaultWindow,
 	}
 }
+
+// validate refuses the options which no model can be trained with.
+func (opts Options) validate() error {
+	if opts.Dim < 1 {
+		return errors.Errorf("invalid dimension: %d must be over 0", opts.Dim)
+	}
+	if opts.Goroutines < 1 {
+		return errors.Errorf("invalid number of goroutine: %d must be over 0", opts.Goroutines)
+	}
+	if opts.Window < 1 {
+		return errors.Errorf("invalid window size: %d must be over 0", opts.Window)
+	}
+	if opts.Verbose && opts.LogBatch < 1 {
+		return errors.Errorf("invalid batch size to log: %d must be over 0", opts.LogBatch)
+	}
+	if !opts.DocInMemory && opts.BatchSize < 1 {
+		return errors.Errorf("invalid batch size: %d must be over 0", opts.BatchSize)
+	}
+	if opts.UpdateLRBatch < 1 {
+		return errors.Errorf("invalid batch size to update learning rate: %d must be over 0", opts.UpdateLRBatch)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
 	cmd.Flags().IntVarP(&opts.Dim, "dim", "d", defaultDim, "dimension for word vector")
diff --git a/pkg/model/word2vec/options.go b/pkg/model/word2vec/options.go
index 34e1583..de44c65 100644
--- a/pkg/model/word2vec/options.go
+++ b/pkg/model/word2vec/options.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"runtime"
 
+	"github.com/pkg/errors"
 	"github.com/spf13/cobra"
 )
 
@@ -103,6 +104,29 @@ func DefaultOptions() Options {
 	}
 }
 
+// validate refuses the options which no model can be trained with.
+func (opts Options) validate() error {
+	if opts.Dim < 1 {
+		return errors.Errorf("invalid dimension: %d must be over 0", opts.Dim)
+	}
+	if opts.Goroutines < 1 {
+		return errors.Errorf("invalid number of goroutine: %d must be over 0", opts.Goroutines)
+	}
+	if opts.Window < 1 {
+		return errors.Errorf("invalid window size: %d must be over 0", opts.Window)
+	}
+	if opts.Verbose && opts.LogBatch < 1 {
+		return errors.Errorf("invalid batch size to log: %d must be over 0", opts.LogBatch)
+	}
+	if !opts.DocInMemory && opts.BatchSize < 1 {
+		return errors.Errorf("invalid batch size: %d must be over 0", opts.BatchSize)
+	}
+	if opts.UpdateLRBatch < 1 {
+		return errors.Errorf("invalid batch size to update learning rate: %d must be over 0", opts.UpdateLRBatch)
+	}
+	return nil
+}
+
 func LoadForCmd(cmd *cobra.Command, opts *Options) {
 	cmd.Flags().IntVar(&opts.BatchSize, "batch", defaultBatchSize, "batch size to train")
 	cmd.Flags().IntVarP(&opts.Dim, "dim", "d", defaultDim, "dimension for word vector")
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index d8051e2..cf948f9 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -60,7 +60,9 @@ func New(opts ...ModelOption) (model.Model, error) {
 }
 
 func NewForOptions(opts Options) (model.Model, error) {
-	// TODO: validate Options
+	if err := opts.validate(); err != nil {
+		return nil, err
+	}
 	v := verbose.New(opts.Verbose)
 	return &word2vec{
 		opts: opts,
-- 
2.43.0


From c324d2bbe1276f703f1229ecabe9bc3e11845ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 25/38] fix: log the corpus scan of lexvec at the log batch
 size

---
 pkg/model/lexvec/lexvec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index c13304b..e8cf201 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -84,7 +84,7 @@ func (l *lexvec) Train(r io.ReadSeeker) error {
 			CountType: co.Increment,
 			Window:    l.opts.Window,
 		},
-		l.verbose, l.opts.BatchSize,
+		l.verbose, l.opts.LogBatch,
 	); err != nil {
 		return err
 	}
-- 
2.43.0


From 805ba6b2bf0426e45e61612044018c23586a61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 26/38] fix: do not deliver a word cut by a read error

---
 pkg/corpus/cpsutil/cpsutil.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/corpus/cpsutil/cpsutil.go b/pkg/corpus/cpsutil/cpsutil.go
index e062ee6..501bbae 100644
--- a/pkg/corpus/cpsutil/cpsutil.go
+++ b/pkg/corpus/cpsutil/cpsutil.go
@@ -36,6 +36,10 @@ func ReadWord(r io.ReadSeeker, fn func(string) error) error {
 	}
 	scanner := scanner(r)
 	for scanner.Scan() {
+		// a failed read may have cut the word.
+		if err := scanner.Err(); err != nil {
+			return err
+		}
 		if err := fn(scanner.Text()); err != nil {
 			return err
 		}
-- 
2.43.0


From f0d237bf0b9f46a828767319e3917147e5c24a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 27/38] fix: keep scoring the path after a saturated node in
 hierarchical softmax

---
 pkg/model/word2vec/optimizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/model/word2vec/optimizer.go b/pkg/model/word2vec/optimizer.go
index 3454cf3..d0e46f7 100644
--- a/pkg/model/word2vec/optimizer.go
+++ b/pkg/model/word2vec/optimizer.go
@@ -118,7 +118,7 @@ func (opt *hierarchicalSoftmax) optim(
 			inner += ctx[j] * p.Vector[j]
 		}
 		if inner <= -opt.sigtable.maxExp || inner >= opt.sigtable.maxExp {
-			return
+			continue
 		}
 		g := (1.0 - float64(childCode) - opt.sigtable.sigmoid(inner)) * lr
 		for j := 0; j < len(p.Vector); j++ {
-- 
2.43.0


From e728fa38a29ab5d29a6413515e6a9c659df3c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 28/38] fix: keep the former corpus of a model when loading the
 next one fails

---
 pkg/model/glove/glove.go       | 8 +++++---
 pkg/model/lexvec/lexvec.go     | 8 +++++---
 pkg/model/word2vec/word2vec.go | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index b02518e..f8535eb 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -68,13 +68,14 @@ func NewForOptions(opts Options) (model.Model, error) {
 }
 
 func (g *glove) Train(r io.ReadSeeker) error {
+	var c corpus.Corpus
 	if g.opts.DocInMemory {
-		g.corpus = memory.New(r, g.opts.ToLower, g.opts.MaxCount, g.opts.MinCount)
+		c = memory.New(r, g.opts.ToLower, g.opts.MaxCount, g.opts.MinCount)
 	} else {
-		g.corpus = fs.New(r, g.opts.ToLower, g.opts.MaxCount, g.opts.MinCount)
+		c = fs.New(r, g.opts.ToLower, g.opts.MaxCount, g.opts.MinCount)
 	}
 
-	if err := g.corpus.Load(
+	if err := c.Load(
 		&corpus.WithCooccurrence{
 			CountType: g.opts.CountType,
 			Window:    g.opts.Window,
@@ -83,6 +84,7 @@ func (g *glove) Train(r io.ReadSeeker) error {
 	); err != nil {
 		return err
 	}
+	g.corpus = c
 
 	dic, dim := g.corpus.Dictionary(), g.opts.Dim
 
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index e8cf201..1da445f 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -73,13 +73,14 @@ func NewForOptions(opts Options) (model.Model, error) {
 }
 
 func (l *lexvec) Train(r io.ReadSeeker) error {
+	var c corpus.Corpus
 	if l.opts.DocInMemory {
-		l.corpus = memory.New(r, l.opts.ToLower, l.opts.MaxCount, l.opts.MinCount)
+		c = memory.New(r, l.opts.ToLower, l.opts.MaxCount, l.opts.MinCount)
 	} else {
-		l.corpus = fs.New(r, l.opts.ToLower, l.opts.MaxCount, l.opts.MinCount)
+		c = fs.New(r, l.opts.ToLower, l.opts.MaxCount, l.opts.MinCount)
 	}
 
-	if err := l.corpus.Load(
+	if err := c.Load(
 		&corpus.WithCooccurrence{
 			CountType: co.Increment,
 			Window:    l.opts.Window,
@@ -88,6 +89,7 @@ func (l *lexvec) Train(r io.ReadSeeker) error {
 	); err != nil {
 		return err
 	}
+	l.corpus = c
 
 	dic, dim := l.corpus.Dictionary(), l.opts.Dim
 
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index cf948f9..f282027 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -74,15 +74,17 @@ func NewForOptions(opts Options) (model.Model, error) {
 }
 
 func (w *word2vec) Train(r io.ReadSeeker) error {
+	var c corpus.Corpus
 	if w.opts.DocInMemory {
-		w.corpus = memory.New(r, w.opts.ToLower, w.opts.MaxCount, w.opts.MinCount)
+		c = memory.New(r, w.opts.ToLower, w.opts.MaxCount, w.opts.MinCount)
 	} else {
-		w.corpus = fs.New(r, w.opts.ToLower, w.opts.MaxCount, w.opts.MinCount)
+		c = fs.New(r, w.opts.ToLower, w.opts.MaxCount, w.opts.MinCount)
 	}
 
-	if err := w.corpus.Load(nil, w.verbose, w.opts.LogBatch); err != nil {
+	if err := c.Load(nil, w.verbose, w.opts.LogBatch); err != nil {
 		return err
 	}
+	w.corpus = c
 
 	dic, dim := w.corpus.Dictionary(), w.opts.Dim
 
-- 
2.43.0


From f5dd53f27abfbd4bb6199b50040aff75dc4c509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 29/38] fix: refuse to save a model which is not trained
 instead of crashing

---
 pkg/model/glove/glove.go       | 6 ++++++
 pkg/model/lexvec/lexvec.go     | 7 +++++++
 pkg/model/word2vec/word2vec.go | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index f8535eb..9326ee1 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -183,11 +183,17 @@ func (g *glove) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (g *glove) Save(f io.Writer, typ vector.Type) error {
+	if g.corpus == nil {
+		return errors.New("the model is not trained")
+	}
 	return vector.Save(f, g.corpus.Dictionary(), g.WordVector(typ), g.verbose, g.opts.LogBatch)
 }
 
 func (g *glove) WordVector(typ vector.Type) *matrix.Matrix {
 	var mat *matrix.Matrix
+	if g.corpus == nil {
+		return matrix.New(0, g.opts.Dim, nil)
+	}
 	dic := g.corpus.Dictionary()
 	if typ != vector.Agg {
 		mat = matrix.New(dic.Len(), g.opts.Dim,
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 1da445f..2fb5593 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -23,6 +23,7 @@ import (
 
 	"golang.org/x/sync/semaphore"
 
+	"github.com/pkg/errors"
 	"github.com/ynqa/wego/pkg/corpus"
 	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
 	"github.com/ynqa/wego/pkg/corpus/cooccurrence/encode"
@@ -276,11 +277,17 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
+	if l.corpus == nil {
+		return errors.New("the model is not trained")
+	}
 	return vector.Save(f, l.corpus.Dictionary(), l.WordVector(typ), l.verbose, l.opts.LogBatch)
 }
 
 func (l *lexvec) WordVector(typ vector.Type) *matrix.Matrix {
 	var mat *matrix.Matrix
+	if l.corpus == nil {
+		return matrix.New(0, l.opts.Dim, nil)
+	}
 	dic := l.corpus.Dictionary()
 	if typ != vector.Agg {
 		mat = matrix.New(dic.Len(), l.opts.Dim,
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index f282027..5265d9d 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -249,11 +249,17 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (w *word2vec) Save(f io.Writer, typ vector.Type) error {
+	if w.corpus == nil {
+		return errors.New("the model is not trained")
+	}
 	return vector.Save(f, w.corpus.Dictionary(), w.WordVector(typ), w.verbose, w.opts.LogBatch)
 }
 
 func (w *word2vec) WordVector(typ vector.Type) *matrix.Matrix {
 	var mat *matrix.Matrix
+	if w.corpus == nil {
+		return matrix.New(0, w.opts.Dim, nil)
+	}
 	dic := w.corpus.Dictionary()
 	ng, ok := w.optimizer.(*negativeSampling)
 	if typ == vector.Agg && ok {
-- 
2.43.0


From dd54ce526a7e5b7eba2fa474da6ce203f2f420b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:17 +0000
Subject: [PATCH 30/38] fix: do not replace a file which appears at the output
 path while a command saves

---
 cmd/model/cmdutil/output.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cmd/model/cmdutil/output.go b/cmd/model/cmdutil/output.go
index f961d46..b4693fe 100644
--- a/cmd/model/cmdutil/output.go
+++ b/cmd/model/cmdutil/output.go
@@ -32,6 +32,7 @@ func FileExists(path string) bool {
 // complete: until then the contents go to a temporary file, which is removed on failure.
 func SaveOutput(path string, fn func(io.Writer) error) error {
 	tmp := fmt.Sprintf("%s.%d.tmp", path, os.Getpid())
+	os.Remove(tmp)
 	output, err := os.Create(tmp)
 	if err != nil {
 		return err
@@ -40,14 +41,25 @@ func SaveOutput(path string, fn func(io.Writer) error) error {
 	if cerr := output.Close(); err == nil {
 		err = cerr
 	}
-	if err == nil && FileExists(path) {
-		err = errors.Errorf("%s is already existed", path)
-	}
 	if err == nil {
-		err = os.Rename(tmp, path)
+		err = publish(tmp, path)
 	}
 	if err != nil {
 		os.Remove(tmp)
 	}
 	return err
 }
+
+// publish moves tmp to path. A file which has appeared at path in the meantime is not replaced,
+// which linking ensures and renaming does not.
+func publish(tmp, path string) error {
+	if err := os.Link(tmp, path); err == nil {
+		os.Remove(tmp)
+		return nil
+	}
+	if FileExists(path) {
+		return errors.Errorf("%s is already existed", path)
+	}
+	// hard links may not be supported
+	return os.Rename(tmp, path)
+}
-- 
2.43.0


From 5613b00103695a54a69ddf52d4f36f640f741799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 31/38] fix: refuse to write the profile over the input or
 output of a command

---
 cmd/model/cmdutil/output.go    | 22 ++++++++++++++++++++++
 cmd/model/glove/glove.go       |  5 ++++-
 cmd/model/lexvec/lexvec.go     |  5 ++++-
 cmd/model/word2vec/word2vec.go |  5 ++++-
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/cmd/model/cmdutil/output.go b/cmd/model/cmdutil/output.go
index b4693fe..c5bcb54 100644
--- a/cmd/model/cmdutil/output.go
+++ b/cmd/model/cmdutil/output.go
@@ -18,6 +18,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 
 	"github.com/pkg/errors"
 )
@@ -28,6 +29,27 @@ func FileExists(path string) bool {
 	return !os.IsNotExist(err)
 }
 
+// ProfFile is the path which profiles are written to.
+const ProfFile = "cpu.prof"
+
+// CheckProf returns an error if the profile would be written over one of the paths.
+func CheckProf(paths ...string) error {
+	prof, err := filepath.Abs(ProfFile)
+	if err != nil {
+		return err
+	}
+	for _, path := range paths {
+		abs, err := filepath.Abs(path)
+		if err != nil {
+			return err
+		}
+		if abs == prof {
+			return errors.Errorf("%s is the path of the profile", path)
+		}
+	}
+	return nil
+}
+
 // SaveOutput saves what fn writes to the file of path. The file appears only after it is
 // complete: until then the contents go to a temporary file, which is removed on failure.
 func SaveOutput(path string, fn func(io.Writer) error) error {
diff --git a/cmd/model/glove/glove.go b/cmd/model/glove/glove.go
index e819169..fee56a9 100644
--- a/cmd/model/glove/glove.go
+++ b/cmd/model/glove/glove.go
@@ -55,7 +55,10 @@ func New() *cobra.Command {
 
 func execute(opts glove.Options) error {
 	if prof {
-		f, err := os.Create("cpu.prof")
+		if err := cmdutil.CheckProf(inputFile, outputFile); err != nil {
+			return err
+		}
+		f, err := os.Create(cmdutil.ProfFile)
 		if err != nil {
 			return err
 		}
diff --git a/cmd/model/lexvec/lexvec.go b/cmd/model/lexvec/lexvec.go
index a1a1e0a..174b5c9 100644
--- a/cmd/model/lexvec/lexvec.go
+++ b/cmd/model/lexvec/lexvec.go
@@ -55,7 +55,10 @@ func New() *cobra.Command {
 
 func execute(opts lexvec.Options) error {
 	if prof {
-		f, err := os.Create("cpu.prof")
+		if err := cmdutil.CheckProf(inputFile, outputFile); err != nil {
+			return err
+		}
+		f, err := os.Create(cmdutil.ProfFile)
 		if err != nil {
 			return err
 		}
diff --git a/cmd/model/word2vec/word2vec.go b/cmd/model/word2vec/word2vec.go
index 90db43a..9eafc5c 100644
--- a/cmd/model/word2vec/word2vec.go
+++ b/cmd/model/word2vec/word2vec.go
@@ -55,7 +55,10 @@ func New() *cobra.Command {
 
 func execute(opts word2vec.Options) error {
 	if prof {
-		f, err := os.Create("cpu.prof")
+		if err := cmdutil.CheckProf(inputFile, outputFile); err != nil {
+			return err
+		}
+		f, err := os.Create(cmdutil.ProfFile)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 965e13393d168999e989bd497a4546ad813a2e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:13 +0000
Subject: [PATCH 32/38] fix: refuse words which are not in the vocabulary when
 a corpus is read again

A corpus which changed between two passes was trained as if its unknown words
were the first word of the vocabulary, or crashed if the vocabulary was empty.
---
 pkg/corpus/fs/fs.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pkg/corpus/fs/fs.go b/pkg/corpus/fs/fs.go
index 0fd5afd..5f1e729 100644
--- a/pkg/corpus/fs/fs.go
+++ b/pkg/corpus/fs/fs.go
@@ -19,6 +19,8 @@ import (
 	"io"
 	"strings"
 
+	"github.com/pkg/errors"
+
 	"github.com/ynqa/wego/pkg/corpus"
 	co "github.com/ynqa/wego/pkg/corpus/cooccurrence"
 	"github.com/ynqa/wego/pkg/corpus/cpsutil"
@@ -63,7 +65,10 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 			word = strings.ToLower(word)
 		}
 
-		id, _ := c.dic.ID(word)
+		id, err := c.id(word)
+		if err != nil {
+			return err
+		}
 		if c.filters.Any(id, c.dic) {
 			return nil
 		}
@@ -84,6 +89,15 @@ func (c *Corpus) BatchWords(ch chan []int, batchSize int) error {
 	return nil
 }
 
+// id returns the id of a word read again after the corpus was loaded.
+func (c *Corpus) id(word string) (int, error) {
+	id, ok := c.dic.ID(word)
+	if !ok {
+		return 0, errors.Errorf("%s is not found in the dictionary: the corpus has changed since it was loaded", word)
+	}
+	return id, nil
+}
+
 func (c *Corpus) Dictionary() *dictionary.Dictionary {
 	return c.dic
 }
@@ -134,8 +148,14 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 			if c.toLower {
 				w1, w2 = strings.ToLower(w1), strings.ToLower(w2)
 			}
-			id1, _ := c.dic.ID(w1)
-			id2, _ := c.dic.ID(w2)
+			id1, err := c.id(w1)
+			if err != nil {
+				return err
+			}
+			id2, err := c.id(w2)
+			if err != nil {
+				return err
+			}
 			if err := c.cooc.AddWithDistance(id1, id2, distance); err != nil {
 				return err
 			}
-- 
2.43.0


From 44f9455fab1dcebb14b8f87eb10d30685f033da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:15 +0000
Subject: [PATCH 33/38] fix: query fails if its answer cannot be printed

---
 cmd/query/query.go            |  3 +--
 pkg/search/console/console.go |  3 +--
 pkg/search/search.go          | 10 ++++++++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/cmd/query/query.go b/cmd/query/query.go
index c4493c6..1e20301 100644
--- a/cmd/query/query.go
+++ b/cmd/query/query.go
@@ -72,6 +72,5 @@ func execute(args []string) error {
 	if err != nil {
 		return err
 	}
-	neighbors.Describe()
-	return nil
+	return neighbors.Describe()
 }
diff --git a/pkg/search/console/console.go b/pkg/search/console/console.go
index 45b749e..29a8e01 100644
--- a/pkg/search/console/console.go
+++ b/pkg/search/console/console.go
@@ -117,8 +117,7 @@ func (c *Console) eval(l string) error {
 	default:
 		return errors.Errorf("invalid type %v", e)
 	}
-	neighbors.Describe()
-	return nil
+	return neighbors.Describe()
 }
 
 func (c *Console) evalExpr(expr ast.Expr) error {
diff --git a/pkg/search/search.go b/pkg/search/search.go
index 5faf6e7..af6f1db 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -15,6 +15,7 @@
 package search
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 
@@ -35,7 +36,8 @@ type Neighbor struct {
 
 type Neighbors []Neighbor
 
-func (neighbors Neighbors) Describe() {
+// Describe prints neighbors to the standard output.
+func (neighbors Neighbors) Describe() error {
 	table := make([][]string, len(neighbors))
 	for i, n := range neighbors {
 		table[i] = []string{
@@ -45,11 +47,15 @@ func (neighbors Neighbors) Describe() {
 		}
 	}
 
-	writer := tablewriter.NewWriter(os.Stdout)
+	// the table writer does not tell errors.
+	var buf bytes.Buffer
+	writer := tablewriter.NewWriter(&buf)
 	writer.SetHeader([]string{"Rank", "Word", "Similarity"})
 	writer.SetBorder(false)
 	writer.AppendBulk(table)
 	writer.Render()
+	_, err := os.Stdout.Write(buf.Bytes())
+	return err
 }
 
 type Searcher struct {
-- 
2.43.0


From 5ed7d0a0f960746ffb10fd05f423fc87aeb20764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:51 +0000
Subject: [PATCH 34/38] fix: word numbers below zero are unknown words instead
 of a crash

---
 pkg/corpus/dictionary/dictionary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/corpus/dictionary/dictionary.go b/pkg/corpus/dictionary/dictionary.go
index f91ad5a..a741ed8 100644
--- a/pkg/corpus/dictionary/dictionary.go
+++ b/pkg/corpus/dictionary/dictionary.go
@@ -54,14 +54,14 @@ func (d *Dictionary) WordFreq(word string) int {
 }
 
 func (d *Dictionary) Word(id int) (string, bool) {
-	if id >= d.maxid {
+	if id < 0 || id >= d.maxid {
 		return "", false
 	}
 	return d.id2word[id], true
 }
 
 func (d *Dictionary) IDFreq(id int) int {
-	if id >= d.maxid {
+	if id < 0 || id >= d.maxid {
 		return 0
 	}
 	return d.cfs[id]
-- 
2.43.0


From 218f9f3ecd794c10a3ae085fc8be87f3d8795ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:51 +0000
Subject: [PATCH 35/38] fix: refuse to search with a vector of another
 dimension

---
 pkg/search/search.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/search/search.go b/pkg/search/search.go
index af6f1db..420b48c 100644
--- a/pkg/search/search.go
+++ b/pkg/search/search.go
@@ -121,6 +121,9 @@ func (s *Searcher) Search(query embedding.Embedding, k int, ignoreWord ...string
 			continue
 		}
 
+		if len(query.Vector) != len(item.Vector) {
+			return nil, errors.Errorf("the dimension of the query is %d, that of %s is %d", len(query.Vector), item.Word, len(item.Vector))
+		}
 		score := searchutil.Cosine(query.Vector, item.Vector, query.Norm, item.Norm)
 		// ignore current word if it's similarity is below the lowest score.
 		if score > low {
-- 
2.43.0


From 792e5d0e924fb90e48492819714c68529e7af191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:51 +0000
Subject: [PATCH 36/38] fix: refuse to save unknown types of vectors

---
 cmd/model/glove/glove.go             | 3 +++
 cmd/model/lexvec/lexvec.go           | 3 +++
 cmd/model/word2vec/word2vec.go       | 3 +++
 pkg/model/glove/glove.go             | 3 +++
 pkg/model/lexvec/lexvec.go           | 3 +++
 pkg/model/modelutil/vector/vector.go | 8 ++++++++
 pkg/model/word2vec/word2vec.go       | 3 +++
 7 files changed, 26 insertions(+)

diff --git a/cmd/model/glove/glove.go b/cmd/model/glove/glove.go
index fee56a9..35b6095 100644
--- a/cmd/model/glove/glove.go
+++ b/cmd/model/glove/glove.go
@@ -54,6 +54,9 @@ func New() *cobra.Command {
 }
 
 func execute(opts glove.Options) error {
+	if err := vector.Validate(vectorType); err != nil {
+		return err
+	}
 	if prof {
 		if err := cmdutil.CheckProf(inputFile, outputFile); err != nil {
 			return err
diff --git a/cmd/model/lexvec/lexvec.go b/cmd/model/lexvec/lexvec.go
index 174b5c9..fbcff79 100644
--- a/cmd/model/lexvec/lexvec.go
+++ b/cmd/model/lexvec/lexvec.go
@@ -54,6 +54,9 @@ func New() *cobra.Command {
 }
 
 func execute(opts lexvec.Options) error {
+	if err := vector.Validate(vectorType); err != nil {
+		return err
+	}
 	if prof {
 		if err := cmdutil.CheckProf(inputFile, outputFile); err != nil {
 			return err
diff --git a/cmd/model/word2vec/word2vec.go b/cmd/model/word2vec/word2vec.go
index 9eafc5c..5db55bf 100644
--- a/cmd/model/word2vec/word2vec.go
+++ b/cmd/model/word2vec/word2vec.go
@@ -54,6 +54,9 @@ func New() *cobra.Command {
 }
 
 func execute(opts word2vec.Options) error {
+	if err := vector.Validate(vectorType); err != nil {
+		return err
+	}
 	if prof {
 		if err := cmdutil.CheckProf(inputFile, outputFile); err != nil {
 			return err
diff --git a/pkg/model/glove/glove.go b/pkg/model/glove/glove.go
index 9326ee1..a41d134 100644
--- a/pkg/model/glove/glove.go
+++ b/pkg/model/glove/glove.go
@@ -183,6 +183,9 @@ func (g *glove) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (g *glove) Save(f io.Writer, typ vector.Type) error {
+	if err := vector.Validate(typ); err != nil {
+		return err
+	}
 	if g.corpus == nil {
 		return errors.New("the model is not trained")
 	}
diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 2fb5593..3440576 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -277,6 +277,9 @@ func (l *lexvec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (l *lexvec) Save(f io.Writer, typ vector.Type) error {
+	if err := vector.Validate(typ); err != nil {
+		return err
+	}
 	if l.corpus == nil {
 		return errors.New("the model is not trained")
 	}
diff --git a/pkg/model/modelutil/vector/vector.go b/pkg/model/modelutil/vector/vector.go
index d06db51..7b36dc2 100644
--- a/pkg/model/modelutil/vector/vector.go
+++ b/pkg/model/modelutil/vector/vector.go
@@ -38,6 +38,14 @@ const (
 	Agg    Type = "agg"
 )
 
+// Validate returns an error unless typ is one of the known types.
+func Validate(typ Type) error {
+	if typ != Single && typ != Agg {
+		return InvalidTypeError(typ)
+	}
+	return nil
+}
+
 func Save(f io.Writer, dic *dictionary.Dictionary, mat *matrix.Matrix, verbose *verbose.Verbose, logBatch int) error {
 	if dic.Len() != mat.Row() {
 		return fmt.Errorf("different for length of dic and row of matrix: %d, %d", dic.Len(), mat.Row())
diff --git a/pkg/model/word2vec/word2vec.go b/pkg/model/word2vec/word2vec.go
index 5265d9d..15832ed 100644
--- a/pkg/model/word2vec/word2vec.go
+++ b/pkg/model/word2vec/word2vec.go
@@ -249,6 +249,9 @@ func (w *word2vec) observe(trained chan struct{}, clk *clock.Clock) {
 }
 
 func (w *word2vec) Save(f io.Writer, typ vector.Type) error {
+	if err := vector.Validate(typ); err != nil {
+		return err
+	}
 	if w.corpus == nil {
 		return errors.New("the model is not trained")
 	}
-- 
2.43.0


From c047ceba1d36b85d68148bc892f0eca9624a4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:10 +0000
Subject: [PATCH 37/38] fix: windows wider than the corpus do not make training
 spin

---
 pkg/model/lexvec/lexvec.go       |  9 +++------
 pkg/model/modelutil/modelutil.go | 16 ++++++++++++++++
 pkg/model/word2vec/model.go      | 18 ++++++------------
 3 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/pkg/model/lexvec/lexvec.go b/pkg/model/lexvec/lexvec.go
index 3440576..7c254fc 100644
--- a/pkg/model/lexvec/lexvec.go
+++ b/pkg/model/lexvec/lexvec.go
@@ -222,12 +222,9 @@ func (l *lexvec) trainPerThread(
 func (l *lexvec) trainOne(doc []int, pos int, items map[uint64]float64) {
 	dic := l.corpus.Dictionary()
 	del := modelutil.NextRandom(l.opts.Window)
-	for a := del; a < l.opts.Window*2+1-del; a++ {
-		if a == l.opts.Window {
-			continue
-		}
-		c := pos - l.opts.Window + a
-		if c < 0 || c >= len(doc) {
+	first, last := modelutil.Neighborhood(pos, l.opts.Window-del, len(doc))
+	for c := first; c <= last; c++ {
+		if c == pos {
 			continue
 		}
 		enc := encode.EncodeBigram(uint64(doc[pos]), uint64(doc[c]))
diff --git a/pkg/model/modelutil/modelutil.go b/pkg/model/modelutil/modelutil.go
index d0207db..181e268 100644
--- a/pkg/model/modelutil/modelutil.go
+++ b/pkg/model/modelutil/modelutil.go
@@ -28,6 +28,22 @@ func NextRandom(value int) int {
 	return int(next % uint64(value))
 }
 
+// Neighborhood returns the first and the last of the positions in a document of size words
+// which are at most reach away from pos.
+func Neighborhood(pos, reach, size int) (first, last int) {
+	if reach > size {
+		reach = size
+	}
+	first, last = pos-reach, pos+reach
+	if first < 0 {
+		first = 0
+	}
+	if last >= size {
+		last = size - 1
+	}
+	return first, last
+}
+
 // IndexPerThread creates interval of indices per thread.
 func IndexPerThread(threadSize, dataSize int) []int {
 	indexPerThread := make([]int, threadSize+1)
diff --git a/pkg/model/word2vec/model.go b/pkg/model/word2vec/model.go
index c5a299d..03d7897 100644
--- a/pkg/model/word2vec/model.go
+++ b/pkg/model/word2vec/model.go
@@ -57,12 +57,9 @@ func (mod *skipGram) trainOne(
 		mod.ch <- tmp
 	}()
 	del := modelutil.NextRandom(mod.window)
-	for a := del; a < mod.window*2+1-del; a++ {
-		if a == mod.window {
-			continue
-		}
-		c := pos - mod.window + a
-		if c < 0 || c >= len(doc) {
+	first, last := modelutil.Neighborhood(pos, mod.window-del, len(doc))
+	for c := first; c <= last; c++ {
+		if c == pos {
 			continue
 		}
 		for i := 0; i < len(tmp); i++ {
@@ -130,12 +127,9 @@ func (mod *cbow) dowith(
 	agg, tmp []float64,
 	fn func(ctx, agg, tmp []float64),
 ) {
-	for a := del; a < mod.window*2+1-del; a++ {
-		if a == mod.window {
-			continue
-		}
-		c := pos - mod.window + a
-		if c < 0 || c >= len(doc) {
+	first, last := modelutil.Neighborhood(pos, mod.window-del, len(doc))
+	for c := first; c <= last; c++ {
+		if c == pos {
 			continue
 		}
 		ctxID := doc[c]
-- 
2.43.0


From 0a36a71f985d4a5948b50e24d9253aa7cd66e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:10 +0000
Subject: [PATCH 38/38] fix: count pairs in windows wider than any corpus

---
 pkg/corpus/memory/memory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/corpus/memory/memory.go b/pkg/corpus/memory/memory.go
index 5ff5845..7dde748 100644
--- a/pkg/corpus/memory/memory.go
+++ b/pkg/corpus/memory/memory.go
@@ -111,6 +111,9 @@ func (c *Corpus) Load(with *corpus.WithCooccurrence, verbose *verbose.Verbose, l
 		cursor int
 	)
 	if with != nil {
+		if with.Window > len(c.idoc) {
+			with = &corpus.WithCooccurrence{CountType: with.CountType, Window: len(c.idoc)}
+		}
 		c.cooc, err = co.New(with.CountType)
 		if err != nil {
 			return err
-- 
2.43.0

