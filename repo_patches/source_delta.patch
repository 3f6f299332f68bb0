From 52d1bc41771cf1012d0824ea2771065a4a522423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:23 +0000
Subject: [PATCH 01/59] fix: topological sorts emit children before parents on
 every DAG

Children were marked visited when pushed, so a node reachable both directly
and through a longer path could be emitted after its parent.
---
 spn/topo.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/spn/topo.go b/spn/topo.go
index a8572fd..f4b6c99 100644
--- a/spn/topo.go
+++ b/spn/topo.go
@@ -43,10 +43,13 @@ func TopSortTarjan(G SPN, C common.Collection) common.Collection {
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
 		if P[u] {
+			if V[u] {
+				continue
+			}
+			V[u] = true
 			C.Give(u)
 			continue
 		}
@@ -54,9 +57,8 @@ func TopSortTarjan(G SPN, C common.Collection) common.Collection {
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -77,10 +79,13 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
 		if P[u] {
+			if V[u] {
+				continue
+			}
+			V[u] = true
 			C.Give(u)
 			if !f(u) {
 				return C
@@ -91,9 +96,8 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -111,13 +115,16 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 	}
 
 	S.Push(G)
-	V[G] = true
 
 	for !S.Empty() {
 		s := S.Pop().(SPN)
+		if V[s] {
+			continue
+		}
 		ch := s.Ch()
 		if len(ch) == 0 {
 			C.Give(s)
+			V[s] = true
 		} else {
 			var m []SPN
 			for _, c := range ch {
@@ -127,11 +134,11 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 			}
 			if len(m) == 0 {
 				C.Give(s)
+				V[s] = true
 			} else {
 				S.Push(s)
 				for _, c := range m {
 					S.Push(c)
-					V[c] = true
 				}
 			}
 		}
-- 
2.43.0


From 73b3f77dcbe4ac21bb25b86b4f09aad1bdd88774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:24 +0000
Subject: [PATCH 02/59] fix: inference and MAP on an SPN that is a single leaf

The non-recursive routes returned 0 (probability one) or no ticket at all
instead of the leaf's value.
---
 spn/utils.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index e0d5e1a..7c982f1 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -21,10 +21,15 @@ import (
 // InferenceY returns the value of S(I, Y=y). This convenience function allows for fast computation
 // of soft inference values without having to create another VarSet for each valuation of Y.
 func InferenceY(S SPN, I VarSet, Y, y int) float64 {
+	J := map[int]int{Y: y}
 	if len(S.Ch()) == 0 {
+		if S.Type() == "leaf" && S.Sc()[0] == Y {
+			return S.Value(J)
+		} else if S.Type() == "leaf" {
+			return S.Value(I)
+		}
 		return 0
 	}
-	J := map[int]int{Y: y}
 	O := common.Queue{}
 	TopSortTarjan(S, &O)
 	V := make(map[SPN]float64)
@@ -65,6 +70,9 @@ func InferenceY(S SPN, I VarSet, Y, y int) float64 {
 // Inference simply returns the value of S(I), without storing values for later use.
 func Inference(S SPN, I VarSet) float64 {
 	if len(S.Ch()) == 0 {
+		if S.Type() == "leaf" {
+			return S.Value(I)
+		}
 		return 0
 	}
 	O := common.Queue{}
@@ -104,7 +112,7 @@ func Inference(S SPN, I VarSet) float64 {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreInference creates a new ticket).
 func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1
 	}
 
@@ -162,7 +170,7 @@ func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreMAP creates a new ticket).
 func StoreMAP(S SPN, I VarSet, tk int, storage *Storer) (SPN, int, VarSet) {
-	if len(S.Ch()) == 0 {
+	if len(S.Ch()) == 0 && S.Type() != "leaf" {
 		return nil, -1, nil
 	}
 
-- 
2.43.0


From 334852b350ae3f0d102c581e06c825944c63ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:25 +0000
Subject: [PATCH 03/59] fix: scope of a sum node was always empty

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index 790eaaf..8a5c9cb 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -33,7 +33,7 @@ func (s *Sum) AddChildW(c SPN, w float64) {
 // Sc returns the scope of this node.
 func (s *Sum) Sc() []int {
 	if s.sc == nil {
-		copy(s.sc, s.ch[0].Sc())
+		s.sc = append(s.sc, s.ch[0].Sc()...)
 	}
 	return s.sc
 }
-- 
2.43.0


From 18acd6ba8bfd4e02c5314e79e9606956bdab0602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:26 +0000
Subject: [PATCH 04/59] fix: completeness and decomposability only looked at
 the root

---
 spn/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index 7c982f1..c01eb9d 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -410,7 +410,7 @@ func Complete(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
@@ -461,7 +461,7 @@ func Decomposable(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
-- 
2.43.0


From cb0b94612bb32b2e2a416c59fd0aaf453a109d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:27 +0000
Subject: [PATCH 05/59] fix: MAP state of an indicator is its own value when
 the variable is unset

---
 spn/indicator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spn/indicator.go b/spn/indicator.go
index 4268f1d..db37bce 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -47,8 +47,11 @@ func (i *Indicator) Max(val VarSet) float64 {
 func (i *Indicator) ArgMax(val VarSet) (VarSet, float64) {
 	retval := make(VarSet)
 	u, e := val[i.varid]
+	if !e {
+		u = i.v
+	}
+	retval[i.varid] = u
 	if !e || u == i.v {
-		retval[i.varid] = u
 		return retval, 0
 	}
 	return retval, utils.LogZero
-- 
2.43.0


From 9c1f24e23cd35cf982b1d25886ec106df6405367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:28 +0000
Subject: [PATCH 06/59] fix: serialization keeps exact parameters and indicator
 scopes

Weights and probabilities were cut to six decimals (tiny ones became zero)
and a decoded indicator had no scope.
---
 spn/indicator.go | 1 +
 spn/multinom.go  | 2 +-
 spn/sum.go       | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/spn/indicator.go b/spn/indicator.go
index db37bce..49907ee 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -74,5 +74,6 @@ func (i *Indicator) GobEncode() ([]byte, error) {
 func (i *Indicator) GobDecode(data []byte) error {
 	b := bytes.NewBuffer(data)
 	_, err := fmt.Fscanf(b, "%d %d", &i.varid, &i.v)
+	i.sc = []int{i.varid}
 	return err
 }
diff --git a/spn/multinom.go b/spn/multinom.go
index 9043ac6..299a7bf 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -220,7 +220,7 @@ func (m *Multinomial) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d %d", m.varid, len(m.pr))
 	for _, p := range m.pr {
-		fmt.Fprintf(&b, " %f", p)
+		fmt.Fprintf(&b, " %v", p)
 	}
 	return b.Bytes(), nil
 }
diff --git a/spn/sum.go b/spn/sum.go
index 8a5c9cb..bdfa512 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -138,7 +138,7 @@ func (s *Sum) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d", len(s.w))
 	for _, w := range s.w {
-		fmt.Fprintf(&b, " %f", w)
+		fmt.Fprintf(&b, " %v", w)
 	}
 	return b.Bytes(), nil
 }
-- 
2.43.0


From 3829e62a37f84bfd853f3dc9f9457610be0aaeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:29 +0000
Subject: [PATCH 07/59] fix: degenerate gaussian marginalises an unset variable
 and honours evidence

---
 spn/gaussian.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 9a2f630..bcb6d77 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -115,7 +115,7 @@ func NewGaussianFit(varid int, counts []float64) *Gaussian {
 func (g *Gaussian) Type() string { return "leaf" }
 
 func zeroSigma(v int, ok bool, mu float64) float64 {
-	if ok && v == int(mu) {
+	if !ok || v == int(mu) {
 		return 0
 	}
 	return math.Inf(-1)
@@ -154,8 +154,11 @@ func (g *Gaussian) ArgMax(val VarSet) (VarSet, float64) {
 	v, ok := val[g.varid]
 
 	if g.dist.Sigma == 0 {
-		retval[g.varid] = int(g.dist.Mu)
-		return retval, 0.0
+		if !ok {
+			v = int(g.dist.Mu)
+		}
+		retval[g.varid] = v
+		return retval, zeroSigma(v, ok, g.dist.Mu)
 	} else if ok {
 		retval[g.varid] = v
 		z := g.dist.LogProb(float64(v))
-- 
2.43.0


From 4dd27911742d585ba03bf5b3baaacef18b22b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:30 +0000
Subject: [PATCH 08/59] fix: NewGaussianMode centers the gaussian on the mode

---
 spn/gaussian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index bcb6d77..5a03fa2 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -89,7 +89,7 @@ func NewGaussianMode(varid int, counts []int) *Gaussian {
 	for i := 0; i < n; i++ {
 		c := float64(counts[i])
 		if c > max {
-			max = c
+			max, mode = c, float64(i)
 		}
 		d := float64(i) - mean
 		sd += (c / float64(N)) * d * d
-- 
2.43.0


From 877ddd26601836e5e27a4bc799b2ddb0e6925771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:31 +0000
Subject: [PATCH 09/59] fix: MAP of a sum node under impossible evidence does
 not crash

---
 spn/sum.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spn/sum.go b/spn/sum.go
index bdfa512..e82e8c6 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -105,6 +105,10 @@ func (s *Sum) ArgMax(val VarSet) (VarSet, float64) {
 		}
 	}
 
+	if mch == nil && n > 0 {
+		// Evidence has zero probability: every child is a MAP child.
+		mch = s.ch[0]
+	}
 	amax, _ := mch.ArgMax(val)
 	return amax, max
 }
-- 
2.43.0


From 74ebc0c44ea40cfe82553f2230b763d490b9eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:32 +0000
Subject: [PATCH 10/59] fix: normalization shifts negative weights up, not
 further down

---
 spn/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/utils.go b/spn/utils.go
index c01eb9d..867cfde 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -273,7 +273,7 @@ func norm(v []float64) {
 	}
 	if min < 0 {
 		for i := range v {
-			v[i] += min
+			v[i] -= min
 		}
 	}
 
-- 
2.43.0


From 9d028ea2ed7ed357f4701dacb0dd0a271dc77c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:33 +0000
Subject: [PATCH 11/59] fix: standard deviation of a multinomial takes its
 probabilities into account

---
 spn/multinom.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index 299a7bf..cc6ebaf 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -195,11 +195,11 @@ func (m *Multinomial) Mean() float64 {
 func (m *Multinomial) StdDev() float64 {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return sd
 }
 
@@ -207,11 +207,11 @@ func (m *Multinomial) StdDev() float64 {
 func (m *Multinomial) MuSigma() (float64, float64) {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return mu, sd
 }
 
-- 
2.43.0


From 35e5b494bb11fc15dfa74055e720b032ed27d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:34 +0000
Subject: [PATCH 12/59] fix: printing an SPN with indicator leaves does not
 crash

---
 spn/print.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spn/print.go b/spn/print.go
index f9e4c3b..21e2dbc 100644
--- a/spn/print.go
+++ b/spn/print.go
@@ -63,6 +63,8 @@ func PrintSPN(S SPN, filename string) {
 			if st == "*spn.Multinomial" {
 				cc := s.(*Multinomial)
 				mu, sigma = cc.MuSigma()
+			} else if st == "*spn.Indicator" {
+				mu, sigma = float64(s.(*Indicator).v), 0
 			} else /* Gaussian */ {
 				cc := s.(*Gaussian)
 				mu, sigma = cc.dist.Mu, cc.dist.Sigma
-- 
2.43.0


From 2a87f4a904598beaebeb0a76358a516f84efe8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:48 +0000
Subject: [PATCH 13/59] fix: height of a DAG is its longest path, not the first
 one found

---
 spn/utils.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index 867cfde..33397e5 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -318,8 +318,8 @@ func ComputeHeight(S SPN) int {
 	T := common.Stack{}
 	V := make(map[SPN]int)
 
-	T.Push(S)
-	V[S] = 0
+	// A stack gives us parents before children, so V[s] is the longest path from S to s.
+	TopSortTarjan(S, &T)
 
 	var h int
 	for !T.Empty() {
@@ -329,8 +329,7 @@ func ComputeHeight(S SPN) int {
 		}
 		ch := s.Ch()
 		for _, c := range ch {
-			if _, e := V[c]; !e {
-				T.Push(c)
+			if V[c] < V[s]+1 {
 				V[c] = V[s] + 1
 			}
 		}
-- 
2.43.0


From 3a744834aa91e51b06a10a405f7bfacd3daa4145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:30 +0000
Subject: [PATCH 14/59] fix: removing the last queue element dropped the first
 one too

---
 common/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/queue.go b/common/queue.go
index a837b68..a54e6db 100644
--- a/common/queue.go
+++ b/common/queue.go
@@ -33,7 +33,7 @@ func (q *Queue) DequeueBack() interface{} {
 	n := len(q.data) - 1
 	e := q.data[n]
 	q.data[n] = nil
-	q.data = q.data[1:n]
+	q.data = q.data[:n]
 	if q.cap > sys.MemLowBoundShrink && q.cap >= (len(q.data)<<1) {
 		q.Shrink()
 	}
-- 
2.43.0


From 7c1da0a31420495a0ad63c10043d3970cf9d7e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:30 +0000
Subject: [PATCH 15/59] fix: leftovers of a label-wise partition come from
 their own class

---
 data/manipulate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index cdcb80c..c146b20 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -157,7 +157,7 @@ func PartitionByLabels(D []map[int]int, L []int, c int, p []float64) ([][]map[in
 		for K[i] < len(R[i]) {
 			l := R[i][K[i]]
 			V := make(map[int]int)
-			copyMap(V, D[l])
+			copyMap(V, D[C[i][l]])
 			M[di] = append(M[di], V)
 			U[di] = append(U[di], i)
 			K[i]++
-- 
2.43.0


From 69cada6df024ce02af9d740c5611d71a50507f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:31 +0000
Subject: [PATCH 16/59] fix: dividing a dataset into more groups than it has
 instances does not crash

---
 data/manipulate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index c146b20..271ce2b 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -335,8 +335,8 @@ func Divide(D []map[int]int, L []int, n int) ([][]map[int]int, [][]int) {
 		for i, I := range D {
 			M := make(map[int]int)
 			copyMap(M, I)
-			Gd[0][i] = M
-			Gl[0][i] = L[i]
+			Gd[0] = append(Gd[0], M)
+			Gl[0] = append(Gl[0], L[i])
 		}
 		return Gd, Gl
 	}
-- 
2.43.0


From 0b6888433351bfe06ae4f1e2af6ed77822249cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:31 +0000
Subject: [PATCH 17/59] fix: datasets of different sizes or variables are not
 identical

---
 data/manipulate.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index 271ce2b..b12ada6 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -294,16 +294,22 @@ func Identical(D []map[int]int, E []map[int]int, L []int, M []int) bool {
 	if c && (len(L) != len(D) || len(M) != len(E)) {
 		panic("Length of dataset does not match length of labels.")
 	}
+	if len(D) != len(E) {
+		return false
+	}
 	for i, I := range D {
 		J := E[i]
+		if len(I) != len(J) {
+			return false
+		}
 		for k, v := range I {
-			if v != J[k] {
+			if u, e := J[k]; !e || v != u {
 				return false
 			}
 		}
 	}
 	for i, l := range L {
-		if M[i] != l {
+		if c && M[i] != l {
 			return false
 		}
 	}
-- 
2.43.0


From 8b78f97995090760e080f52764a7494989c1270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:32 +0000
Subject: [PATCH 18/59] fix: scoring works on datasets of any size

Fewer than ten instances divided by zero, and fewer instances than CPUs made
the concurrent version run more jobs than there were groups.
---
 score/score.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/score/score.go b/score/score.go
index 0265655..3d6243e 100644
--- a/score/score.go
+++ b/score/score.go
@@ -71,7 +71,7 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 	tk := st.NewTicket()
 	v := classVar.Varid
 	sys.Println("Evaluating scores...")
-	n := len(T) / 10
+	n := len(T)/10 + 1
 	for i, I := range T {
 		if i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
@@ -92,7 +92,7 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 	tk := st.NewTicket()
 	v := classVar.Varid
 	sys.Println("Evaluating scores...")
-	n := len(T) / 10
+	n := len(T)/10 + 1
 	for i, I := range T {
 		if i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
@@ -143,6 +143,7 @@ func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *l
 
 	k = Q.Allowed()
 	G, H := data.Divide(D, L, k)
+	k = len(G)
 	for i := 0; i < k; i++ {
 		Q.Run(func(id int) {
 			g, h := G[id], H[id]
@@ -166,7 +167,7 @@ func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *l
 				}
 				mu.Lock()
 				s.Register(ml, h[j])
-				if _n := s.total; (_n > 0) && (_n%(len(D)/10) == 0) {
+				if _n := s.total; (_n > 0) && (_n%(len(D)/10+1) == 0) {
 					sys.Printf("... %d%% ...\n", int(100.0*(float64(_n)/float64(len(D)))))
 				}
 				mu.Unlock()
-- 
2.43.0


From ed705a1539132463f2779f592c0b9b0dc26c4e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:33 +0000
Subject: [PATCH 19/59] fix: scoring does not add a label to instances that had
 none

---
 score/score.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/score/score.go b/score/score.go
index 3d6243e..9f7346e 100644
--- a/score/score.go
+++ b/score/score.go
@@ -76,12 +76,14 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 		if i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
+		l, e := I[v]
 		delete(I, v)
 		_, _, M := spn.StoreMAP(N, I, tk, st)
 		s.Register(M[v], L[i])
 		st.Reset(tk)
-		I[v] = l
+		if e {
+			I[v] = l
+		}
 	}
 }
 
@@ -97,7 +99,7 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 		if i > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
+		l, e := I[v]
 		delete(I, v)
 		spn.StoreInference(N, I, tk, st)
 		pe, _ := st.Single(tk, N)
@@ -115,7 +117,9 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 		}
 		s.Register(ml, L[i])
 		st.Reset(tk)
-		I[v] = l
+		if e {
+			I[v] = l
+		}
 	}
 }
 
-- 
2.43.0


From 77f369e161ddd4541e8f8fcf68b537ee43953982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:33 +0000
Subject: [PATCH 20/59] fix: adding two scores does not share predictions with
 the operands

---
 score/score.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/score.go b/score/score.go
index 9f7346e..75a103e 100644
--- a/score/score.go
+++ b/score/score.go
@@ -210,7 +210,8 @@ func Add(s, t *S) *S {
 	m.hits = s.hits + t.hits
 	m.misses = s.misses + t.misses
 	m.total = s.total + t.total
-	m.predictions = append(s.predictions, t.predictions...)
+	m.predictions = append(m.predictions, s.predictions...)
+	m.predictions = append(m.predictions, t.predictions...)
 	return m
 }
 
-- 
2.43.0


From 716deeffc0caabc8d2c1c7e5d47de546e133f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:34 +0000
Subject: [PATCH 21/59] fix: setting a log file redirects the log to it

---
 sys/print.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sys/print.go b/sys/print.go
index b5acc08..e026bd8 100644
--- a/sys/print.go
+++ b/sys/print.go
@@ -17,6 +17,9 @@ func SetLogFile(filename string) (*os.File, error) {
 		return nil, nil
 	}
 	f, err := os.Create(filename)
+	if err == nil {
+		fout = f
+	}
 	return f, err
 }
 
-- 
2.43.0


From 5c04c2a15496c92b98bed7208c95f78349ab29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:31 +0000
Subject: [PATCH 22/59] fix: derivatives wait for every parent before
 descending

A node reached by paths of different lengths passed an incomplete derivative
down to its children.
---
 learn/derive.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/learn/derive.go b/learn/derive.go
index 61344cf..d4108ab 100644
--- a/learn/derive.go
+++ b/learn/derive.go
@@ -33,10 +33,17 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 
 	table, _ := storage.Table(tk)
 	inf, _ := storage.Table(itk)
-	visited := make(map[spn.SPN]bool)
+	// Number of parent edges of each node yet to be derived. A node's derivative is only final once
+	// all of its parents have been derived.
+	pending := make(map[spn.SPN]int)
+	spn.BreadthFirst(S, func(s spn.SPN) int {
+		for _, cs := range s.Ch() {
+			pending[cs]++
+		}
+		return 0
+	})
 	table.StoreSingle(S, 0.0)
 	c.Give(S)
-	visited[S] = true
 
 	for !c.Empty() {
 		s := c.Take().(spn.SPN)
@@ -75,14 +82,14 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 		}
 
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && !visited[cs] {
+			pending[cs]--
+			if cs.Type() != "leaf" && pending[cs] == 0 {
 				c.Give(cs)
-				visited[cs] = true
 			}
 		}
 	}
 
-	visited = nil
+	pending = nil
 	c = nil
 	sys.Free()
 	return S, tk
-- 
2.43.0


From 37b81ac1df77867f6c11382e1dae28deb1362628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 23/59] fix: discriminative gradient reaches every sum node and
 divides by S(Y|X)

Only the root was updated, and its gradient was scaled by the wrong entry of
the inference table for every weight but the first.
---
 learn/discriminative.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 7daa85a..cb4d612 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -197,10 +197,10 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			W := sum.Weights()
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
+			iS, _ := ist.Single(S)
+			iZ, _ := izt.Single(S)
 			for i := range W {
-				delta := eta * (math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i]))
+				delta := eta * (math.Exp(dW[i]-iS) - math.Exp(dU[i]-iZ))
 				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
 			}
 			if norm {
@@ -208,7 +208,7 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
@@ -235,16 +235,16 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 			nw := len(sum.Weights())
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
+			iS, _ := ist.Single(S)
+			iZ, _ := izt.Single(S)
 			for i := 0; i < nw; i++ {
-				delta := math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i])
+				delta := math.Exp(dW[i]-iS) - math.Exp(dU[i]-iZ)
 				v, _ := lt.Entry(n, i)
 				lt.Store(n, i, v+delta)
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
-- 
2.43.0


From 1f3201bb116529a3eb29f9a9d6fd65641bdfa9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:33 +0000
Subject: [PATCH 24/59] fix: variables with empty names or names with spaces
 survive serialization

---
 learn/variable.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/learn/variable.go b/learn/variable.go
index fcc9157..eb8ffce 100644
--- a/learn/variable.go
+++ b/learn/variable.go
@@ -29,7 +29,11 @@ func (v *Variable) GobEncode() ([]byte, error) {
 
 func (v *Variable) GobDecode(data []byte) error {
 	b := bytes.NewBuffer(data)
-	_, err := fmt.Fscanln(b, &v.Varid, &v.Categories, &v.Name)
+	_, err := fmt.Fscanf(b, "%d %d", &v.Varid, &v.Categories)
+	if r := b.Bytes(); err == nil && len(r) > 1 {
+		// The name is everything between the separating space and the final newline.
+		v.Name = string(r[1 : len(r)-1])
+	}
 	return err
 }
 
-- 
2.43.0


From 55c0ad3fefb6a24bb611b856776805eddf823920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 25/59] fix: quantiles without any instance do not produce NaN
 gaussians

---
 learn/dennis/region.go | 2 +-
 learn/poon/poon.go     | 2 +-
 utils/stats.go         | 7 +++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/learn/dennis/region.go b/learn/dennis/region.go
index 0e805dd..76b605e 100644
--- a/learn/dennis/region.go
+++ b/learn/dennis/region.go
@@ -33,8 +33,8 @@ func (r *region) translate(D spn.Dataset, m, g int) []spn.SPN {
 			mu, sigma := utils.MuSigma(X)
 			r.rep = []spn.SPN{spn.NewGaussianParams(v, mu, sigma)}
 		} else {
-			r.rep = make([]spn.SPN, g)
 			Q := utils.PartitionQuantiles(X, g)
+			r.rep = make([]spn.SPN, len(Q))
 			for i, q := range Q {
 				r.rep[i] = spn.NewGaussianParams(v, q[0], q[1])
 			}
diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 4077f0f..aea69a2 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -111,7 +111,7 @@ func createUnitRegion(x, y, n int, D spn.Dataset) *region {
 	sort.Ints(V)
 	//sys.Printf("p: %d\n", p)
 	Q := utils.PartitionQuantiles(V, n)
-	S := make([]spn.SPN, n)
+	S := make([]spn.SPN, len(Q))
 	//s := spn.NewSum()
 	for i, q := range Q {
 		g := spn.NewGaussianParams(p, q[0], q[1])
diff --git a/utils/stats.go b/utils/stats.go
index 5f240b6..32b2216 100644
--- a/utils/stats.go
+++ b/utils/stats.go
@@ -65,7 +65,7 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 	} else {
 		l = int(floats.Round(float64(k)/float64(m), 0))
 	}
-	P := make([][]float64, m)
+	P := make([][]float64, 0, m)
 	for i := 0; i < m; i++ {
 		q := (i + 1) * l
 		if i == m-1 {
@@ -75,6 +75,9 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 		for j := i * l; j < q && j < k; j++ {
 			Q = append(Q, X[j])
 		}
+		if len(Q) == 0 {
+			continue
+		}
 		// Compute mean and standard deviation.
 		var mu, sigma float64
 		n := float64(len(Q))
@@ -90,7 +93,7 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 		if sigma == 0 {
 			sigma = 0.5
 		}
-		P[i] = []float64{mu, sigma, n}
+		P = append(P, []float64{mu, sigma, n})
 	}
 	return P
 }
-- 
2.43.0


From 5ddcfdb6dc0e5691245960fe23a9c7c465c64f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 26/59] fix: single gaussians are fitted to the observed
 values, not to them as counts

---
 learn/dennis/region.go | 4 ++--
 learn/poon/poon.go     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/learn/dennis/region.go b/learn/dennis/region.go
index 76b605e..88c1cb3 100644
--- a/learn/dennis/region.go
+++ b/learn/dennis/region.go
@@ -30,8 +30,8 @@ func (r *region) translate(D spn.Dataset, m, g int) []spn.SPN {
 		}
 		X := learn.ExtractInstance(v, D)
 		if g > len(D) {
-			mu, sigma := utils.MuSigma(X)
-			r.rep = []spn.SPN{spn.NewGaussianParams(v, mu, sigma)}
+			q := utils.PartitionQuantiles(X, 1)[0]
+			r.rep = []spn.SPN{spn.NewGaussianParams(v, q[0], q[1])}
 		} else {
 			Q := utils.PartitionQuantiles(X, g)
 			r.rep = make([]spn.SPN, len(Q))
diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index aea69a2..9d35158 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -104,8 +104,8 @@ func createUnitRegion(x, y, n int, D spn.Dataset) *region {
 	}
 
 	if n == 1 {
-		mu, sigma := utils.MuSigma(V)
-		return newRegion(gmixtureId, []spn.SPN{spn.NewGaussianParams(p, mu, sigma)}, 1)
+		q := utils.PartitionQuantiles(V, 1)[0]
+		return newRegion(gmixtureId, []spn.SPN{spn.NewGaussianParams(p, q[0], q[1])}, 1)
 	}
 
 	sort.Ints(V)
-- 
2.43.0


From cdbbd628c592a260d59bafa947a16bc48df238bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:35 +0000
Subject: [PATCH 27/59] fix: every sum chosen by the Poon structure gets a
 child

A decomposition already used by another sum of the region left the chosen sum
childless, and resolution 1 crashed.
---
 learn/poon/poon.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 9d35158..0bc547f 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -58,7 +58,7 @@ type decomp struct {
 
 func newRegion(id int, inner []spn.SPN, step int) *region {
 	var d []*decomp
-	if step == 1 {
+	if id == gmixtureId {
 		d = nil
 	} else {
 		d = make([]*decomp, len(inner))
@@ -347,7 +347,7 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 			U = append(U, i)
 		}
 	}
-	var cUnusedIndex int
+	cUnusedIndex := -1
 	if len(U) > 0 {
 		cUnusedIndex = U[sys.RandIntn(len(U))]
 	}
@@ -472,6 +472,16 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 		counts.StoreSingle(pi, c+1.0)
 	} else {
 		pi := extractProd(bD, decompToProd)
+		sum := R.inner[R.mapIndex].(*spn.Sum)
+		isChild := false
+		for _, c := range sum.Ch() {
+			if c == spn.SPN(pi) {
+				isChild = true
+			}
+		}
+		if !isChild {
+			sum.AddChildW(pi, 1.0)
+		}
 		c, _ := counts.Single(pi)
 		counts.StoreSingle(pi, c+1.0)
 	}
-- 
2.43.0


From cf875c084d90460191b9f3d46f1aaf40495ef4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:35 +0000
Subject: [PATCH 28/59] fix: DBSCAN on datasets numbers clusters consecutively

Clusters were numbered after their first instance, indexing past the result.
---
 utils/cluster/dbscan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/dbscan.go b/utils/cluster/dbscan.go
index 5d52a7a..63dfd04 100644
--- a/utils/cluster/dbscan.go
+++ b/utils/cluster/dbscan.go
@@ -108,11 +108,11 @@ func DBSCANData(data []map[int]int, eps float64, mp int) [][]map[int]int {
 	rgs := dbscanInternal(M, eps, mp)
 	G := make([]int, len(M))
 	var k int
-	for i, u := range rgs {
+	for _, u := range rgs {
 		if u.Pa == u {
 			ch := utils.UFVarids(u)
 			for _, c := range ch {
-				G[c] = i
+				G[c] = k
 			}
 			k++
 		}
-- 
2.43.0


From 4e3fc088294b73de4a857663605af931b42674cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:36 +0000
Subject: [PATCH 29/59] fix: OPTICS orders neighbours by reachability instead
 of crashing

---
 utils/cluster/optics.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/utils/cluster/optics.go b/utils/cluster/optics.go
index 7d95bc2..1bb6232 100644
--- a/utils/cluster/optics.go
+++ b/utils/cluster/optics.go
@@ -83,7 +83,7 @@ func getCoreDist(nb []*object, o *object, eps float64, mp int) float64 {
 	if n < mp {
 		return undef
 	}
-	dists, p1 := make([]*objDist, n), o.data
+	dists, p1 := make([]*objDist, 0, n), o.data
 	for i := 0; i < n; i++ {
 		dists = append(dists, &objDist{dist: distance(p1, nb[i].data), index: i})
 	}
@@ -141,12 +141,12 @@ func seedsUpdate(nb []*object, o *object, pq *pQueue) {
 	for i := 0; i < n; i++ {
 		if !nb[i].vst {
 			rdist := max(cdist, distance(p1, nb[i].data))
-			if o.rdist == undef {
-				o.rdist = rdist
-				pq.Push(&item{obj: o, p: rdist})
-			} else if rdist < o.rdist {
-				o.rdist = rdist
-				pq.update(o, rdist)
+			if nb[i].rdist == undef {
+				nb[i].rdist = rdist
+				heap.Push(pq, &item{obj: nb[i], p: rdist})
+			} else if rdist < nb[i].rdist {
+				nb[i].rdist = rdist
+				pq.update(nb[i], rdist)
 			}
 		}
 	}
@@ -161,7 +161,7 @@ func expand(set []*object, o *object, eps float64, mp int, order *qObj, pq *pQue
 	if o.cdist != undef {
 		seedsUpdate(nb, o, pq)
 		for len(*pq) != 0 {
-			co := pq.Pop().(*item).obj
+			co := heap.Pop(pq).(*item).obj
 			nb := getNeighbors(set, co, eps)
 			co.vst = true
 			co.cdist = getCoreDist(nb, co, eps, mp)
-- 
2.43.0


From 19dfead28deb41f2b37a5e6ee4e2ae1d8b7aa158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:37 +0000
Subject: [PATCH 30/59] fix: k-medoid accepts data with fewer than k distinct
 instances

---
 utils/cluster/kmedoid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cluster/kmedoid.go b/utils/cluster/kmedoid.go
index debe94b..e8d317a 100644
--- a/utils/cluster/kmedoid.go
+++ b/utils/cluster/kmedoid.go
@@ -91,7 +91,7 @@ func KMedoid(k int, data [][]int) []map[int][]int {
 			which = v
 			min = metrics.Hamming(clusters[which][means[which]], data[i])
 		}
-		for j := 0; j < k; j++ {
+		for j := 0; j < len(means); j++ {
 			if j != which {
 				t := metrics.Hamming(clusters[j][means[j]], data[i])
 				if t < min {
-- 
2.43.0


From dd17ff3267360ff98b69d31e0648cd64b12d611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:37 +0000
Subject: [PATCH 31/59] fix: k-means on datasets keys instances by their index,
 not by variable

Instances were stored under variable identifiers, so all but a few were lost.
---
 utils/cluster/kmeans.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index b83441a..a680e01 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -123,8 +123,8 @@ func KMeans(k int, data [][]int) []map[int][]int {
 }
 
 func KMeansData(k int, data []map[int]int) []map[int][]int {
-	D, Sc := learn.DataToMatrix(data)
-	return KMeansMuesli(k, D, Sc)
+	D, _ := learn.DataToMatrix(data)
+	return KMeansMuesli(k, D, nil)
 }
 
 func OldKMeans(k int, data [][]int) []map[int][]int {
@@ -220,8 +220,8 @@ func KMeansF(k int, D [][]float64, sc map[int]int) []map[int][]float64 {
 }
 
 func KMeansFData(k int, D []map[int]int) []map[int][]float64 {
-	E, Sc := learn.DataToMatrixF(D)
-	return KMeansMuesliF(k, E, Sc)
+	E, _ := learn.DataToMatrixF(D)
+	return KMeansMuesliF(k, E, nil)
 }
 
 func OldKMeansF(k int, D [][]float64, F metrics.MetricF) []map[int][]float64 {
-- 
2.43.0


From 87b1c744229ecf175c17efdb5cfeeff6e5d0d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 32/59] fix: structure learning ignores empty clusters

---
 learn/dennis/dennis.go | 3 +++
 learn/gens/gens.go     | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/learn/dennis/dennis.go b/learn/dennis/dennis.go
index 1472c32..d06c41f 100644
--- a/learn/dennis/dennis.go
+++ b/learn/dennis/dennis.go
@@ -59,6 +59,9 @@ func buildRegionGraph(D spn.Dataset, sc map[int]*learn.Variable, k int, t float6
 		C := cluster.KMeansDataI(k, D)
 		for i := 0; i < k; i++ {
 			//sys.Printf("Expanding region graph on cluster %d...\n", i)
+			if len(C[i]) == 0 {
+				continue
+			}
 			P := transpose(dataToCluster(C[i]))
 			expandRegionGraph(G, n, P, t)
 		}
diff --git a/learn/gens/gens.go b/learn/gens/gens.go
index 3b05146..4c26826 100644
--- a/learn/gens/gens.go
+++ b/learn/gens/gens.go
@@ -168,6 +168,13 @@ func clusterStep(np, k, g int, pval, eps float64, mp int, D []map[int]int, Sc ma
 	} else {
 		clusters = cluster.DBSCANData(D, eps, mp)
 	}
+	var filled [][]map[int]int
+	for _, c := range clusters {
+		if len(c) > 0 {
+			filled = append(filled, c)
+		}
+	}
+	clusters = filled
 	if c := len(clusters); c == 1 {
 		return newFullyFactorized(g, D, Sc)
 	}
-- 
2.43.0


From ab235121a7ac40f3e8ca3f03a520a6a8c5b09d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:20 +0000
Subject: [PATCH 33/59] fix: log of a sum of zero probabilities is minus
 infinity, not NaN

---
 utils/log.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/log.go b/utils/log.go
index 49de4a3..9a567ea 100644
--- a/utils/log.go
+++ b/utils/log.go
@@ -51,6 +51,10 @@ func LogSum(p []float64) float64 {
 		}
 	}
 
+	if math.IsInf(pi, -1) {
+		return pi
+	}
+
 	lg := 0.0
 	for i := 0; i < n; i++ {
 		lg += math.Exp(math.Log(p[i]) - pi)
@@ -86,6 +90,9 @@ func AntiLog(l float64) float64 {
 // LogSumPair is the result of the operation:
 // 	ln(p1+p2)=ln(p1)+ln(1+p2/p1)
 func LogSumPair(p1, p2 float64) float64 {
+	if p1 == 0 {
+		return Log(p2)
+	}
 	return Log(p1) + Log(1.0+(p2/p1))
 }
 
-- 
2.43.0


From c62e78bbe203d1ad68d4e98e1311b3c462177ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:55 +0000
Subject: [PATCH 34/59] fix: default parameters never replace concurrently
 bound ones

---
 learn/parameters/parameters.go | 13 +++++++++++++
 spn/node.go                    |  7 +------
 spn/product.go                 |  7 +------
 spn/sum.go                     |  7 +------
 4 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/learn/parameters/parameters.go b/learn/parameters/parameters.go
index c854024..a3cb334 100644
--- a/learn/parameters/parameters.go
+++ b/learn/parameters/parameters.go
@@ -116,3 +116,16 @@ func Retrieve(e Parametrizable) (*P, bool) {
 	mu.Unlock()
 	return p, q
 }
+
+// RetrieveOrDefault returns the parameters bound to e. If there are none, it binds and returns the
+// default values. Concurrent calls and binds cannot come in between.
+func RetrieveOrDefault(e Parametrizable) *P {
+	mu.Lock()
+	defer mu.Unlock()
+	p, q := bindings[e]
+	if !q {
+		p = Default()
+		bindings[e] = p
+	}
+	return p
+}
diff --git a/spn/node.go b/spn/node.go
index c582e5c..e7daa8e 100644
--- a/spn/node.go
+++ b/spn/node.go
@@ -118,10 +118,5 @@ func (n *Node) Height() int {
 // Parameters returns the parameters of this object. If no bound parameter is found, binds default
 // parameter values and returns.
 func (n *Node) Parameters() *parameters.P {
-	p, e := parameters.Retrieve(n)
-	if !e {
-		p = parameters.Default()
-		parameters.Bind(n, p)
-	}
-	return p
+	return parameters.RetrieveOrDefault(n)
 }
diff --git a/spn/product.go b/spn/product.go
index 3f04894..6a221e7 100644
--- a/spn/product.go
+++ b/spn/product.go
@@ -90,12 +90,7 @@ func (p *Product) AddChild(c SPN) {
 // Parameters returns the parameters of this object. If no bound parameter is found, binds default
 // parameter values and returns.
 func (p *Product) Parameters() *parameters.P {
-	r, e := parameters.Retrieve(p)
-	if !e {
-		r = parameters.Default()
-		parameters.Bind(p, r)
-	}
-	return r
+	return parameters.RetrieveOrDefault(p)
 }
 
 func (p *Product) GobEncode() ([]byte, error) {
diff --git a/spn/sum.go b/spn/sum.go
index e82e8c6..c8d6825 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -129,12 +129,7 @@ func (s *Sum) AddChild(c SPN) {
 // Parameters returns the parameters of this object. If no bound parameter is found, binds default
 // parameter values and returns.
 func (s *Sum) Parameters() *parameters.P {
-	p, e := parameters.Retrieve(s)
-	if !e {
-		p = parameters.Default()
-		parameters.Bind(s, p)
-	}
-	return p
+	return parameters.RetrieveOrDefault(s)
 }
 
 // GobEncode serializes this sum node, but does not recurse over its children.
-- 
2.43.0


From ead1d976838e1f609ca8258271bfe99d813faf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:07 +0000
Subject: [PATCH 35/59] fix: parameters bound to a leaf are found through it

---
 spn/gaussian.go  | 7 +++++++
 spn/indicator.go | 7 +++++++
 spn/multinom.go  | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 5a03fa2..91d4e31 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -4,6 +4,7 @@ import (
 	//"github.com/RenatoGeh/gospn/sys"
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"gonum.org/v1/gonum/stat/distuv"
 	"math"
 )
@@ -199,3 +200,9 @@ func (g *Gaussian) GobDecode(data []byte) error {
 
 // SubType returns this leaf's subtype.
 func (g *Gaussian) SubType() string { return "gaussian" }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (g *Gaussian) Parameters() *parameters.P {
+	return parameters.RetrieveOrDefault(g)
+}
diff --git a/spn/indicator.go b/spn/indicator.go
index 49907ee..f1490df 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/utils"
 )
 
@@ -77,3 +78,9 @@ func (i *Indicator) GobDecode(data []byte) error {
 	i.sc = []int{i.varid}
 	return err
 }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (i *Indicator) Parameters() *parameters.P {
+	return parameters.RetrieveOrDefault(i)
+}
diff --git a/spn/multinom.go b/spn/multinom.go
index cc6ebaf..093373d 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/sys"
 	"math"
 )
@@ -248,3 +249,9 @@ func (m *Multinomial) GobDecode(data []byte) error {
 
 // SubType returns this leaf's subtype.
 func (m *Multinomial) SubType() string { return "multinomial" }
+
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (m *Multinomial) Parameters() *parameters.P {
+	return parameters.RetrieveOrDefault(m)
+}
-- 
2.43.0


From 14b05632229b2b915eb60c05ee6dc8799299d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:08 +0000
Subject: [PATCH 36/59] fix: reading the seed or the new generator does not
 race with a refresh

---
 sys/rand.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sys/rand.go b/sys/rand.go
index c63d83e..abf3019 100644
--- a/sys/rand.go
+++ b/sys/rand.go
@@ -19,9 +19,9 @@ func init() {
 // RandSeed sets the pseudo-random generator's seed and resets the
 func RefreshRandom(s int64) *rand.Rand {
 	mu.Lock()
+	defer mu.Unlock()
 	seed = s
 	Random = rand.New(rand.NewSource(seed))
-	mu.Unlock()
 	return Random
 }
 
@@ -47,7 +47,11 @@ func RandNormFloat64() float64 {
 }
 
 // Seed returns the pseudo-random seed.
-func Seed() int64 { return seed }
+func Seed() int64 {
+	mu.Lock()
+	defer mu.Unlock()
+	return seed
+}
 
 func RandomComb(u int, v int, m int) [][2]int {
 	n := u * v
-- 
2.43.0


From 657d82e0f7616532a5b89225158c4b9e55ae972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:44 +0000
Subject: [PATCH 37/59] fix: an image as large as the resolution has a single
 root sum

---
 learn/poon/poon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 0bc547f..cfa9a8e 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -163,6 +163,9 @@ func createRegions(D spn.Dataset, m, g, r int) map[uint64]*region {
 							var R *region
 							if x == 1 && y == 1 {
 								R = createUnitRegion(x1, y1, g, D)
+							} else if x == w && y == h {
+								// The whole image is the root and has a single sum, no matter the resolution.
+								_, R = createSum(x1, y1, x2, y2, 1)
 							} else {
 								R = createRegion(m, r)
 								if x2-x1 <= r || y2-y1 <= r {
-- 
2.43.0


From 218cc769c30e55f0b039f7d934ea0acf8e5f54d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:28 +0000
Subject: [PATCH 38/59] fix: white space in PGM files adds no pixels to the
 evidence

---
 io/pgm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/io/pgm.go b/io/pgm.go
index 06a42ef..5de3472 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -516,8 +516,10 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 			tokens := strings.Split(line, " ")
 			ntokens := len(tokens)
 			for j := 0; j < ntokens; j++ {
-				tkn, _ := strconv.Atoi(tokens[j])
-				fmt.Fprintf(out, "%d ", tkn)
+				tkn, err := strconv.Atoi(tokens[j])
+				if err == nil {
+					fmt.Fprintf(out, "%d ", tkn)
+				}
 			}
 		}
 
-- 
2.43.0


From 14022828f20fa3cc6db390e0a1098e6f639cbe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:28 +0000
Subject: [PATCH 39/59] fix: evidence labels mark the first instance of classes
 of any size

---
 io/pbm.go | 2 +-
 io/pgm.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/pbm.go b/io/pbm.go
index 88c49b9..63d55b0 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -317,7 +317,7 @@ func PBMFToEvidence(dirname, dname string) {
 
 			instreams = append(instreams, bufio.NewScanner(f))
 		}
-		slabels = append(slabels, nsf*i)
+		slabels = append(slabels, len(instreams)-nsf)
 	}
 
 	// Create compiled folder.
diff --git a/io/pgm.go b/io/pgm.go
index 5de3472..9ea10cc 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -449,7 +449,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 
 			instreams = append(instreams, bufio.NewScanner(f))
 		}
-		slabels = append(slabels, nsf*i)
+		slabels = append(slabels, len(instreams)-nsf)
 	}
 
 	// Create compiled folder.
-- 
2.43.0


From 9278ef7f1fbe2d0e4f4aaf35f86b0de2dd200471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:29 +0000
Subject: [PATCH 40/59] fix: blank lines in ARFF data are not instances

---
 io/arff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/arff.go b/io/arff.go
index 7f8c736..735d2ad 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -262,6 +262,9 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 			v := strings.FieldsFunc(line, func(c rune) bool {
 				return c == ' ' || c == ','
 			})
+			if len(v) == 0 {
+				continue
+			}
 
 			vals = append(vals, make(map[int]int))
 			for j := range v {
-- 
2.43.0


From 1ac169a0a9bd8157507c6afb07100c7c7515a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:29 +0000
Subject: [PATCH 41/59] fix: undeclared ARFF classes get a value of their own

---
 io/arff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/arff.go b/io/arff.go
index 735d2ad..e605d32 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -293,8 +293,8 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 				} else /* class */ {
 					tk := v[j]
 					if _, e := labels[j][tk]; !e {
-						labels[j][tk] = counts[j]
-						counts[j]++
+						labels[j][tk] = len(labels[j])
+						sc[j].Categories++
 					}
 					vals[i][j] = labels[j][tk]
 				}
-- 
2.43.0


From 167845cee9e94fd63ccb761ebb8f3b4b92eda135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:29 +0000
Subject: [PATCH 42/59] fix: partitioned data follows the seed given

---
 io/input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/input.go b/io/input.go
index 7abf64f..69e503b 100644
--- a/io/input.go
+++ b/io/input.go
@@ -294,7 +294,7 @@ func ParsePartitionedData(filename string, p float64, rseed int64) (map[int]*lea
 	if rseed < 0 {
 		rint = rand.Intn
 	} else {
-		if glrseed < 0 {
+		if glrseed != rseed {
 			glrand, glrseed = rand.New(rand.NewSource(rseed)), rseed
 		}
 		rint = glrand.Intn
-- 
2.43.0


From bbac2998c6a885274f0c8f03b528b4a81bb6c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:30 +0000
Subject: [PATCH 43/59] fix: PPM files in plain text say so

---
 io/ppm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/ppm.go b/io/ppm.go
index 76e5555..27ccc54 100644
--- a/io/ppm.go
+++ b/io/ppm.go
@@ -17,7 +17,7 @@ func VarSetToPPM(filename string, state spn.VarSet, w, h, max int) {
 	}
 	defer file.Close()
 
-	fmt.Fprintf(file, "P6\n%d %d\n%d\n", w, h, max)
+	fmt.Fprintf(file, "P3\n%d %d\n%d\n", w, h, max)
 
 	n := len(state)
 	pixels := make([]int, n)
-- 
2.43.0


From ce8113e12a7995329e3ff1ba14a8dcf0a9011330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:30 +0000
Subject: [PATCH 44/59] fix: the line between image halves is within the
 maximum value

---
 io/pgm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/pgm.go b/io/pgm.go
index 9ea10cc..55fb26c 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -587,7 +587,7 @@ func ImgCmplToPGM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h, ma
 	n, j := w*h, 0
 	for i := 0; i < n; i++ {
 		if mid(i) {
-			common.DrawColor(file, common.Red)
+			common.DrawColorRGB(file, max, 0, 0)
 			goto cleanup
 		} else if v, eo := orig[j]; eo {
 			common.DrawColorRGB(file, v, v, v)
-- 
2.43.0


From fefcb0a9abd6dc7be73325bd989633c1ab75fdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:30 +0000
Subject: [PATCH 45/59] fix: ReadFromFile reads the file instead of emptying it

---
 io/input.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/io/input.go b/io/input.go
index 69e503b..082623c 100644
--- a/io/input.go
+++ b/io/input.go
@@ -336,12 +336,11 @@ func ParsePartitionedData(filename string, p float64, rseed int64) (map[int]*lea
 
 // ReadFromFile reads an SPN from an spn mdl file.
 func ReadFromFile(filename string) spn.SPN {
-	file, err := os.Create(filename)
+	S, err := LoadSPN(filename)
 	if err != nil {
-		fmt.Printf("Error. Could not create file [%s].\n", filename)
+		fmt.Printf("Error. Could not read file [%s].\n", filename)
 		panic(err)
 	}
-	defer file.Close()
 
-	return nil
+	return S
 }
-- 
2.43.0


From 1e4cbd9ebd505d14e3006ce8f630505ca00c40f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:30 +0000
Subject: [PATCH 46/59] fix: parallel image tests name files after their own
 instance

---
 app/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/image.go b/app/image.go
index 5de9eef..963a4d1 100644
--- a/app/image.go
+++ b/app/image.go
@@ -320,7 +320,7 @@ func ImgTestParallel(filename string, m, g, r int, eta, eps float64, concurrents
 			S := dennis.LearnGD(train, lsc, 1, m, g, 0.95, P, id)
 			for _, q := range io.Quadrants {
 				cmpl, half := halfImg(S, I, q, sys.Width, sys.Height)
-				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, q, sys.Width, sys.Height, sys.Max)
+				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, id), half, cmpl, q, sys.Width, sys.Height, sys.Max)
 			}
 			sys.Printf("Ending job %d\n", id)
 
-- 
2.43.0


From 0ede6b1a57774fd08d88362299329e6b46dadf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:31 +0000
Subject: [PATCH 47/59] fix: image tests draw the half they completed

---
 app/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/image.go b/app/image.go
index 963a4d1..3289119 100644
--- a/app/image.go
+++ b/app/image.go
@@ -255,7 +255,7 @@ func ImgTest(filename string, m, g, r int, eta, eps float64) {
 		//spn.NormalizeSPN(S)
 		for _, q := range io.Quadrants {
 			cmpl, half := halfImg(S, I, q, sys.Width, sys.Height)
-			io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, io.Left, sys.Width, sys.Height, sys.Max)
+			io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, q, sys.Width, sys.Height, sys.Max)
 		}
 	}
 }
-- 
2.43.0


From 406bd4082e04cbebc42bcf56b2205810a02c8fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:31 +0000
Subject: [PATCH 48/59] fix: the graph of a single leaf shows its variable

---
 io/output.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/output.go b/io/output.go
index 7ddadd5..009cabd 100644
--- a/io/output.go
+++ b/io/output.go
@@ -57,7 +57,7 @@ func DrawGraphTools(filename string, s spn.SPN) {
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "add_node(\"X\")\n\n")
+		fmt.Fprintf(file, "X0 = add_node(\"X_%d\", \"#0066ff\")\n\n", s.Sc()[0])
 		fmt.Fprintf(file, "g.vertex_properties[\"name\"]=vnames\n")
 		fmt.Fprintf(file, "g.vertex_properties[\"color\"]=vcolors\n")
 		fmt.Fprintf(file, "\ngraph_draw(g, vertex_text=g.vertex_properties[\"name\"], "+
@@ -167,7 +167,7 @@ func DrawGraph(filename string, s spn.SPN) {
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "X1 [label=<X<sub>1</sub>>,shape=circle];\n")
+		fmt.Fprintf(file, "X0 [label=<X<sub>%d</sub>>,shape=circle];\n", s.Sc()[0])
 		fmt.Fprintf(file, "}")
 		file.Close()
 		return
-- 
2.43.0


From 9b89c78896676051f7079d6e3ece1f681e8c2735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 49/59] fix: lines longer than 64 KB are read whole

---
 io/arff.go  |  4 ++--
 io/input.go | 17 ++++++++++++++---
 io/pbm.go   |  6 +++---
 io/pgm.go   |  8 ++++----
 4 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/io/arff.go b/io/arff.go
index e605d32..0ba9b63 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -34,7 +34,7 @@ func ARFFToData(dirname, fname, dname string) {
 	defer input.Close()
 
 	var lines []string
-	scanner := bufio.NewScanner(input)
+	scanner := newScanner(input)
 	for scanner.Scan() {
 		lines = append(lines, scanner.Text())
 	}
@@ -204,7 +204,7 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 	}
 	defer in.Close()
 
-	stream := bufio.NewScanner(in)
+	stream := newScanner(in)
 	labels = make(map[int]map[string]int)
 	sc = make(map[int]*learn.Variable)
 	var typs []string
diff --git a/io/input.go b/io/input.go
index 082623c..bcb02b8 100644
--- a/io/input.go
+++ b/io/input.go
@@ -15,6 +15,17 @@ import (
 	"github.com/RenatoGeh/gospn/spn"
 )
 
+// maxLine is the length of the longest line accepted in a file.
+const maxLine = 1 << 30
+
+// newScanner returns a line scanner over file. A line holds a whole instance, so lines may be far
+// longer than what bufio.Scanner accepts by default.
+func newScanner(file *os.File) *bufio.Scanner {
+	s := bufio.NewScanner(file)
+	s.Buffer(nil, maxLine)
+	return s
+}
+
 func GetDataPath(dataset string) string {
 	in, _ := filepath.Abs("data/" + dataset + "/compiled")
 	return in
@@ -44,7 +55,7 @@ func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
 
 	sc := make(map[int]*learn.Variable)
 
-	scanner := bufio.NewScanner(file)
+	scanner := newScanner(file)
 
 	var line string
 
@@ -116,7 +127,7 @@ func ParseDataNL(filename string) (map[int]*learn.Variable, []map[int]int, []int
 
 	sc := make(map[int]*learn.Variable)
 
-	scanner := bufio.NewScanner(file)
+	scanner := newScanner(file)
 
 	var line string
 
@@ -198,7 +209,7 @@ func ParseEvidence(filename string) (map[int]*learn.Variable, []map[int]int, []i
 
 	sc := make(map[int]*learn.Variable)
 
-	scanner := bufio.NewScanner(file)
+	scanner := newScanner(file)
 
 	var line string
 
diff --git a/io/pbm.go b/io/pbm.go
index 63d55b0..0ddcc3f 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -91,7 +91,7 @@ func PBMFToData(dirname, dname string) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 			labels = append(labels, i)
 		}
 	}
@@ -188,7 +188,7 @@ func PBMToData(dirname, dname string, class int) {
 		}
 		defer in[i].Close()
 
-		instream[i] = bufio.NewScanner(in[i])
+		instream[i] = newScanner(in[i])
 	}
 
 	out, err := os.Create(dname)
@@ -315,7 +315,7 @@ func PBMFToEvidence(dirname, dname string) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 		}
 		slabels = append(slabels, len(instreams)-nsf)
 	}
diff --git a/io/pgm.go b/io/pgm.go
index 55fb26c..db36ad8 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -95,7 +95,7 @@ func PGMFToData(dirname, dname string) (int, int, int) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 			labels = append(labels, i)
 		}
 	}
@@ -271,7 +271,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 		f.Close()
 		panic(err)
 	}
-	stream := bufio.NewScanner(f)
+	stream := newScanner(f)
 	files = files[1:]
 
 	// Deal with magical number.
@@ -328,7 +328,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 			}
 			mutex.Unlock()
 			defer lf.Close()
-			lstream := bufio.NewScanner(lf)
+			lstream := newScanner(lf)
 			// Magical number.
 			lstream.Scan()
 			// Width, height.
@@ -447,7 +447,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 		}
 		slabels = append(slabels, len(instreams)-nsf)
 	}
-- 
2.43.0


From 5f2450a9441d41241de5899cd4ced65cdb2b136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:02 +0000
Subject: [PATCH 50/59] fix: reading past the end of a npy file is an error,
 not zeros or an endless loop

---
 io/npy.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/io/npy.go b/io/npy.go
index f7e9423..a475901 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -3,6 +3,7 @@ package io
 import (
 	"errors"
 	"github.com/sbinet/npyio"
+	"io"
 	"os"
 )
 
@@ -44,6 +45,7 @@ type NpyReader struct {
 	r *npyio.Reader // Npyio reader.
 	t int           // Actual type.
 	s [2]int        // Shape.
+	p int           // Number of instances already read.
 }
 
 // NewNpyReader creates a new *NpyReader from .npy file fname.
@@ -64,7 +66,7 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	if t < 0 {
 		return nil, ErrNonIntegerType
 	}
-	return &NpyReader{f, r, t, [2]int{s[0], s[1]}}, nil
+	return &NpyReader{f, r, t, [2]int{s[0], s[1]}, 0}, nil
 }
 
 func new_counts(n int, k int) []int {
@@ -90,6 +92,10 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 	y := r.s[1]
 	C := new_counts(n, c)
 	for i := 0; i < n; {
+		if r.p >= r.s[0] {
+			return nil, nil, io.ErrUnexpectedEOF
+		}
+		r.p++
 		switch r.t {
 		case 0:
 			m := make([]uint8, y)
@@ -219,6 +225,13 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 
 // read reads .npy file from an *NpyReader, pulling n entries.
 func read(r *NpyReader, n int) ([]map[int]int, []int, error) {
+	if n > r.s[0]-r.p {
+		return nil, nil, io.ErrUnexpectedEOF
+	}
+	if n <= 0 {
+		return nil, nil, nil
+	}
+	r.p += n
 	k := n * r.s[1]
 	u := make([]map[int]int, n)
 	l := make([]int, n)
@@ -377,9 +390,9 @@ func (r *NpyReader) Read(n int) ([]map[int]int, []int, error) {
 	return read(r, n)
 }
 
-// ReadAll reads all instances from file and returns a dataset and label slice.
+// ReadAll reads all instances left in the file and returns a dataset and label slice.
 func (r *NpyReader) ReadAll() ([]map[int]int, []int, error) {
-	return read(r, r.s[0])
+	return read(r, r.s[0]-r.p)
 }
 
 // ReadBalanced returns a balanced dataset and label slice totalling n instances. As argument, it
@@ -392,7 +405,7 @@ func (r *NpyReader) ReadBalanced(n int, c int) ([]map[int]int, []int, error) {
 func (r *NpyReader) Reset() error {
 	r.f.Seek(0, 0)
 	nr, err := npyio.NewReader(r.f)
-	r.r = nr
+	r.r, r.p = nr, 0
 	return err
 }
 
-- 
2.43.0


From e3193eaf89f45003c8f933e036c376d1f735bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:03 +0000
Subject: [PATCH 51/59] fix: npy files in Fortran order are refused instead of
 read transposed

---
 io/npy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index a475901..9442725 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -20,6 +20,7 @@ var (
 	}
 
 	ErrNonIntegerType  = errors.New("gospn: npy data type is non integer.")
+	ErrFortranOrder    = errors.New("gospn: npy data is in Fortran order.")
 	ErrNonDatasetShape = errors.New("gospn: npy data does not have dimension two.")
 )
 
@@ -62,6 +63,9 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	if len(s) != 2 {
 		return nil, ErrNonDatasetShape
 	}
+	if r.Header.Descr.Fortran {
+		return nil, ErrFortranOrder
+	}
 	t := isValid(r.Header.Descr.Type)
 	if t < 0 {
 		return nil, ErrNonIntegerType
-- 
2.43.0


From c880c3192f469297779d620ce93fee66a56b0b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:03 +0000
Subject: [PATCH 52/59] fix: a failed download is an error and leaves no broken
 file behind

---
 io/http.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/io/http.go b/io/http.go
index f316395..923f7ef 100644
--- a/io/http.go
+++ b/io/http.go
@@ -36,21 +36,33 @@ func DownloadFromURL(u, p string, override bool) error {
 		fmt.Println(e)
 		return e
 	}
-	out, e := os.Create(f)
-	defer out.Close()
+	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
+	d, e := http.Get(u)
 	if e != nil {
-		fmt.Println("Error when trying to create file [%s].\n", f)
+		fmt.Printf("Error while downloading [%s].\nStopping download.\n", u)
 		return e
 	}
-	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
-	d, e := http.Get(u)
 	defer d.Body.Close()
+	if d.StatusCode != http.StatusOK {
+		fmt.Printf("Error while downloading [%s].\nStopping download.\n", u)
+		return fmt.Errorf("gospn: downloading [%s]: %s", u, d.Status)
+	}
+	// Only a complete download takes the place of f.
+	part := f + ".part"
+	out, e := os.Create(part)
 	if e != nil {
-		fmt.Println("Error while downloading [%s].\nStopping download.", u)
+		fmt.Printf("Error when trying to create file [%s].\n", part)
 		return e
 	}
 	_, e = io.Copy(out, d.Body)
+	if ce := out.Close(); e == nil {
+		e = ce
+	}
+	if e == nil {
+		e = os.Rename(part, f)
+	}
 	if e != nil {
+		os.Remove(part)
 		fmt.Println("Error while copying download to local directory.")
 		return e
 	}
-- 
2.43.0


From 12b019948a736d9aaab90976eeea65f195cbe40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:03 +0000
Subject: [PATCH 53/59] fix: MNIST loaders report a failed training set
 download

---
 data/datasets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/datasets.go b/data/datasets.go
index f7029f5..d5e35b8 100644
--- a/data/datasets.go
+++ b/data/datasets.go
@@ -189,6 +189,9 @@ func pullMNIST(n, b int) (map[int]*learn.Variable, []map[int]int, []map[int]int)
 		return nil, nil, nil
 	}
 	e = io.DownloadFromURL(ur, pr, false)
+	if e != nil {
+		return nil, nil, nil
+	}
 	v, dt := io.ParseData(pt)
 	_, dr := io.ParseData(pr)
 	return v, dt, dr
-- 
2.43.0


From f2cf4b50d0e51ca20b4d8fc5de9b2ab93e9b5ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:35 +0000
Subject: [PATCH 54/59] fix: hues between magenta and red are not black

---
 common/color.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/color.go b/common/color.go
index 8a233c8..7c7b5b9 100644
--- a/common/color.go
+++ b/common/color.go
@@ -151,7 +151,6 @@ func hsv2rgb(in hsv) rgb {
 		out.r = t
 		out.g = p
 		out.b = in.v
-	case 5:
 	default:
 		out.r = in.v
 		out.g = p
-- 
2.43.0


From aed7e28550a4ebca0ff781bc6aa6ee57a7471638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:42 +0000
Subject: [PATCH 55/59] fix: k-mode and mode-based k-means recompute a mode
 from its count, not its index

---
 utils/cluster/kmeans.go | 2 +-
 utils/cluster/kmode.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index a680e01..88a9649 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -27,7 +27,7 @@ func kMeansRemove(which int, means map[int][]int, clusters []map[int][]int, v []
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
diff --git a/utils/cluster/kmode.go b/utils/cluster/kmode.go
index 49342f1..359cd29 100644
--- a/utils/cluster/kmode.go
+++ b/utils/cluster/kmode.go
@@ -24,7 +24,7 @@ func kModeRemove(which int, means map[int][]int, clusters []map[int][]int, v []i
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
-- 
2.43.0


From a13664a1eda7ee16e9973b53f150ff27f0bf782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:34 +0000
Subject: [PATCH 56/59] fix: discriminative learning gave instances without a
 label the label zero

---
 learn/discriminative.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index cb4d612..61c4bc7 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -30,17 +30,23 @@ func Discriminative(S spn.SPN, D spn.Dataset, Y []*Variable) spn.SPN {
 	return DiscriminativeGD(S, P.Eta, P.Epsilon, D, Y, P.Normalize)
 }
 
-func pullValues(I spn.VarSet, Y []*Variable, y []int) {
-	for i, v := range Y {
+// pullValues takes the values of variables Y out of I. Variables that have no value in I are left
+// out.
+func pullValues(I spn.VarSet, Y []*Variable) spn.VarSet {
+	y := make(spn.VarSet)
+	for _, v := range Y {
 		u := v.Varid
-		y[i] = I[u]
-		delete(I, u)
+		if x, e := I[u]; e {
+			y[u] = x
+			delete(I, u)
+		}
 	}
+	return y
 }
 
-func pushValues(I spn.VarSet, Y []*Variable, y []int) {
-	for i, v := range Y {
-		I[v.Varid] = y[i]
+func pushValues(I, y spn.VarSet) {
+	for u, x := range y {
+		I[u] = x
 	}
 }
 
@@ -53,17 +59,16 @@ func DiscriminativeGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Variable,
 	s, d, w := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	z, p, u := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
 			spn.StoreInference(S, I, s, st)
 			DeriveSPN(S, st, d, s, Q)
 			DeriveWeights(S, st, w, d, s, Q)
-			pullValues(I, Y, y)
+			y := pullValues(I, Y)
 			spn.StoreInference(S, I, z, st)
 			DeriveSPN(S, st, p, z, Q)
 			DeriveWeights(S, st, u, p, z, Q)
-			pushValues(I, Y, y)
+			pushValues(I, y)
 			applyDGD(S, s, d, w, z, p, u, st, eta, norm, Q, 1)
 			st.ResetTickets(s, d, w, z, p, u)
 		}
@@ -78,13 +83,12 @@ func DiscriminativeHardGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Varia
 	st := spn.NewStorer()
 	d, p := st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
 			DeriveHard(S, st, d, I)
-			pullValues(I, Y, y)
+			y := pullValues(I, Y)
 			DeriveHard(S, st, p, I)
-			pushValues(I, Y, y)
+			pushValues(I, y)
 			applyHDGD(S, d, p, st, eta, P.Lambda, norm, 1)
 			st.ResetTickets(d, p)
 		}
@@ -103,18 +107,17 @@ func DiscriminativeBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Variable
 	z, p, u := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	l := st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	var j int
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
 			spn.StoreInference(S, I, s, st)
 			DeriveSPN(S, st, d, s, Q)
 			DeriveWeights(S, st, w, d, s, Q)
-			pullValues(I, Y, y)
+			y := pullValues(I, Y)
 			spn.StoreInference(S, I, z, st)
 			DeriveSPN(S, st, p, z, Q)
 			DeriveWeights(S, st, u, p, z, Q)
-			pushValues(I, Y, y)
+			pushValues(I, y)
 			storeDGD(S, s, d, w, z, p, u, l, st, eta, norm, Q)
 			st.ResetTickets(s, d, w, z, p, u)
 			j++
@@ -139,7 +142,6 @@ func DiscriminativeHardBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Vari
 	st := spn.NewStorer()
 	d, p := st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
 	var j int
 
 	u := st.NewTicket()
@@ -156,9 +158,9 @@ func DiscriminativeHardBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Vari
 			sys.Printf("Log-likelihood = %.3f\n", llh)
 
 			DeriveHard(S, st, d, I)
-			pullValues(I, Y, y)
+			y := pullValues(I, Y)
 			DeriveHard(S, st, p, I)
-			pushValues(I, Y, y)
+			pushValues(I, y)
 			j++
 			if j%b == 0 {
 				sys.Println("Applying gradient.")
-- 
2.43.0


From 9401ffa8172405b9566b3c73ff8ecd12cb83c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:04 +0000
Subject: [PATCH 57/59] fix: leftovers of a label-wise partition go to the
 group furthest below its proportion

---
 data/manipulate.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index b12ada6..0dd2a0b 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -143,18 +143,15 @@ func PartitionByLabels(D []map[int]int, L []int, c int, p []float64) ([][]map[in
 			}
 		}
 	}
-	// Give leftovers to partition that is furthest from its ideal state.
-	var d float64
-	var di int
-	for i := 0; i < m; i++ {
-		u := float64(n) / float64(len(M[i]))
-		du := math.Abs(u - p[i])
-		if du > d {
-			d, di = du, i
-		}
-	}
 	for i := 0; i < c; i++ {
 		for K[i] < len(R[i]) {
+			// Give leftover to partition that is furthest from its ideal state.
+			d, di := math.Inf(-1), 0
+			for j := 0; j < m; j++ {
+				if dj := float64(n)*p[j] - float64(len(M[j])); dj > d {
+					d, di = dj, j
+				}
+			}
 			l := R[i][K[i]]
 			V := make(map[int]int)
 			copyMap(V, D[C[i][l]])
-- 
2.43.0


From 9ce0266705eeededcc33c8323d6017799a1f8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:10 +0000
Subject: [PATCH 58/59] fix: ARFF lines may be indented and use tabs

---
 io/arff.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/io/arff.go b/io/arff.go
index 0ba9b63..04080cc 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 // ARFFToData. Each class is in a subfolder of dirname. dname is the output file. Arg dirname must
@@ -211,7 +212,7 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 	var counts map[int]int
 	data := false
 	for i, lc := 0, 0; stream.Scan(); lc++ {
-		line := stream.Text()
+		line := strings.TrimSpace(stream.Text())
 
 		// Line is a comment.
 		if len(line) > 0 {
@@ -260,7 +261,7 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 			}
 		} else {
 			v := strings.FieldsFunc(line, func(c rune) bool {
-				return c == ' ' || c == ','
+				return unicode.IsSpace(c) || c == ','
 			})
 			if len(v) == 0 {
 				continue
-- 
2.43.0


From 7759a3f8c231c0d037adc7984223d21fbfd18705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:34 +0000
Subject: [PATCH 59/59] fix: refuse .npy files that are shorter than the array
 they declare

Reading beyond the end of the file gives no error in npyio, so a truncated
file was completed with instances made up of the last value read.
---
 io/npy.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index 9442725..41dfbc3 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -70,6 +70,16 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	if t < 0 {
 		return nil, ErrNonIntegerType
 	}
+	// Reading past the end of the file gives no error in npyio.
+	if i, err := f.Stat(); err == nil && i.Mode().IsRegular() {
+		p, err := f.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return nil, err
+		}
+		if int64(s[0])*int64(s[1])<<uint(t%4) > i.Size()-p {
+			return nil, io.ErrUnexpectedEOF
+		}
+	}
 	return &NpyReader{f, r, t, [2]int{s[0], s[1]}, 0}, nil
 }
 
-- 
2.43.0

