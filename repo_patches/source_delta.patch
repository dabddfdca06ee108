From 0a96918ff0f521b68895b65fb3475a2e7b649b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 01/21] fix: the difference of False and any node is False
 (Apply with OPdiff)

---
 operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index e4ccd8b..3c7cd77 100644
--- a/operations.go
+++ b/operations.go
@@ -236,7 +236,7 @@ func (b *BDD) apply(left int, right int) int {
 			return 0
 		}
 		if left == 0 {
-			return right
+			return 0
 		}
 	case OPless:
 		if (left == right) || (left == 1) {
-- 
2.43.0


From be9d55886299ac22b65308290194080cfcff9942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 02/21] fix: Allsat stops and returns the error of its callback

---
 operations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operations.go b/operations.go
index 3c7cd77..92f5344 100644
--- a/operations.go
+++ b/operations.go
@@ -723,7 +723,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(low, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 
@@ -733,7 +733,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(high, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From e38c630d5c2b4a9757f8cbfd7158767c3640661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 03/21] fix: report a nil operand instead of dereferencing it
 in the error message

checkptr already records the id of the offending node.
---
 operations.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/operations.go b/operations.go
index 92f5344..13d6f20 100644
--- a/operations.go
+++ b/operations.go
@@ -101,7 +101,7 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 // the zero-terminal with references to the one-terminal and vice versa.
 func (b *BDD) Not(n Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong operand in call to Not (%d)", *n)
+		return b.seterror("Wrong operand in call to Not")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -145,10 +145,10 @@ func (b *BDD) not(n int) int {
 //    OPinvimp      reverse implication      [1,0,1,1]
 func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 	if b.checkptr(n1) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: %d, n2: ...)", op, *n1)
+		return b.seterror("Wrong operand (n1) in call to Apply %s", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: ..., n2: %d)", op, *n2)
+		return b.seterror("Wrong operand (n2) in call to Apply %s", op)
 	}
 	b.applycache.op = int(op)
 	b.Initref()
@@ -305,13 +305,13 @@ func (b *BDD) apply(left int, right int) int {
 // & g) | (!f & h)] more efficiently than doing the three operations separately.
 func (b *BDD) Ite(f, g, h Node) Node {
 	if b.checkptr(f) != nil {
-		return b.seterror("Wrong operand in call to Ite (f: %d)", *f)
+		return b.seterror("Wrong operand (f) in call to Ite")
 	}
 	if b.checkptr(g) != nil {
-		return b.seterror("Wrong operand in call to Ite (g: %d)", *g)
+		return b.seterror("Wrong operand (g) in call to Ite")
 	}
 	if b.checkptr(h) != nil {
-		return b.seterror("Wrong operand in call to Ite (h: %d)", *h)
+		return b.seterror("Wrong operand (h) in call to Ite")
 	}
 	b.Initref()
 	b.Pushref(*f)
@@ -393,10 +393,10 @@ func (b *BDD) ite(f, g, h int) int {
 // nil and set the error flag in b if there is an error.
 func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong node in call to Exist (n: %d)", *n)
+		return b.seterror("Wrong node in call to Exist")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
+		return b.seterror("Wrong varset in call to Exist")
 	}
 	if err := b.quantset2cache(*varset); err != nil {
 		return nil
@@ -448,16 +448,16 @@ func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 		return b.seterror("operator %s not supported in call to AppEx")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("wrong varset in call to AppEx (%d)", *varset)
+		return b.seterror("wrong varset in call to AppEx")
 	}
 	if *varset < 2 { // we have an empty set
 		return b.Apply(n1, n2, op)
 	}
 	if b.checkptr(n1) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(left: %d)", op, *n1)
+		return b.seterror("wrong operand (left) in call to AppEx %s", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(right: %d)", op, *n2)
+		return b.seterror("wrong operand (right) in call to AppEx %s", op)
 	}
 	if err := b.quantset2cache(*varset); err != nil {
 		return nil
@@ -592,7 +592,7 @@ func (b *BDD) appquant(left, right, varset int) int {
 // variables with new ones. See type Replacer.
 func (b *BDD) Replace(n Node, r Replacer) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("wrong operand in call to Replace (%d)", *n)
+		return b.seterror("wrong operand in call to Replace")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -658,7 +658,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 func (b *BDD) Satcount(n Node) *big.Int {
 	res := big.NewInt(0)
 	if b.checkptr(n) != nil {
-		b.seterror("Wrong operand in call to Satcount (%d)", *n)
+		b.seterror("Wrong operand in call to Satcount")
 		return res
 	}
 	// We compute 2^level with a bit shift 1 << level
@@ -698,7 +698,7 @@ func (b *BDD) satcount(n int, satc map[int]*big.Int) *big.Int {
 // point.
 func (b *BDD) Allsat(f func([]int) error, n Node) error {
 	if b.checkptr(n) != nil {
-		return fmt.Errorf("wrong node in call to Allsat (%d)", *n)
+		return fmt.Errorf("wrong node in call to Allsat; %s", b.Error())
 	}
 	prof := make([]int, b.varnum)
 	for k := range prof {
-- 
2.43.0


From 069566b6ccab457a87db5d0eb1fe51373df3df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 04/21] fix: Exist over the empty set of variables returns its
 operand

---
 operations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index 13d6f20..f45e659 100644
--- a/operations.go
+++ b/operations.go
@@ -398,12 +398,12 @@ func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(varset) != nil {
 		return b.seterror("Wrong varset in call to Exist")
 	}
-	if err := b.quantset2cache(*varset); err != nil {
-		return nil
-	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
 	}
+	if err := b.quantset2cache(*varset); err != nil {
+		return nil
+	}
 
 	b.quantcache.id = cacheidEXIST
 	b.applycache.op = int(OPor)
-- 
2.43.0


From 8287f3888c8cd4ace45b3258ecbb69c81881a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 05/21] fix: take option Maxnodesize into account

---
 buddy.go | 1 +
 hudd.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/buddy.go b/buddy.go
index 3f6e8c3..7e16560 100644
--- a/buddy.go
+++ b/buddy.go
@@ -94,6 +94,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	b.error = nil
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
+	impl.maxnodesize = config.maxnodesize
 	impl.maxnodeincrease = config.maxnodeincrease
 	nodesize := primeGte(config.nodesize)
 	impl.nodes = make([]buddynode, nodesize)
diff --git a/hudd.go b/hudd.go
index bd817d1..7e8fd48 100644
--- a/hudd.go
+++ b/hudd.go
@@ -94,6 +94,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	b.error = nil
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
+	impl.maxnodesize = config.maxnodesize
 	impl.maxnodeincrease = config.maxnodeincrease
 	// initializing the list of nodes
 	nodesize := config.nodesize
-- 
2.43.0


From 89f81b4298ac3a5e5dd79bb50d7955dc9e4e80f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 06/21] fix: an operation that cannot allocate nodes sets the
 error and returns nil

The failure was not recorded, the caches kept results for nodes that the GC had
just reclaimed, and the error value (-1) was used as if it were a node.
---
 bdd.go        | 10 ++++++++++
 bkernel.go    |  6 +++++-
 hkernel.go    |  6 +++++-
 operations.go |  6 +++++-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/bdd.go b/bdd.go
index 002580d..c3ef397 100644
--- a/bdd.go
+++ b/bdd.go
@@ -167,6 +167,10 @@ func (b *BDD) Varnum() int {
 // exist or creates a new one in the BDD. You can create a node from the value
 // returned by Makenode using function Retnode.
 func (b *BDD) Makenode(level int32, low, high int) int {
+	// we propagate errors that occurred when computing one of the branches
+	if low < 0 || high < 0 {
+		return -1
+	}
 	res, err := b.tables.makenode(level, low, high, b.refstack)
 	if err == nil {
 		return res
@@ -183,6 +187,12 @@ func (b *BDD) Makenode(level int32, low, high int) int {
 		b.cacheresize(b.size())
 		return res
 	}
+	// we were not able to find a free position; but the GC may have reclaimed
+	// some nodes that occur in the caches
+	b.cachereset()
+	if b.error == nil {
+		b.seterror("%s", err)
+	}
 	return res
 }
 
diff --git a/bkernel.go b/bkernel.go
index 9983ede..f660f8c 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -16,7 +16,11 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 {
+		// error during the computation of n
+		return nil
+	}
+	if n > len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
 		}
diff --git a/hkernel.go b/hkernel.go
index 554c344..a9785c3 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -16,7 +16,11 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 {
+		// error during the computation of n
+		return nil
+	}
+	if n > len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
 		}
diff --git a/operations.go b/operations.go
index f45e659..9e4196d 100644
--- a/operations.go
+++ b/operations.go
@@ -267,7 +267,7 @@ func (b *BDD) apply(left int, right int) int {
 	// we check for errors
 	if left < 0 || right < 0 {
 		if _DEBUG {
-			log.Panicf("panic in apply(%d,%d,%s)\n", left, right, Operator(b.applycache.op))
+			log.Printf("error in apply(%d,%d,%s)\n", left, right, Operator(b.applycache.op))
 		}
 		return -1
 	}
@@ -619,6 +619,10 @@ func (b *BDD) replace(n int, r Replacer) int {
 
 func (b *BDD) correctify(level int32, low, high int) int {
 	/* FIXME: we do not use the cache here */
+	// we check for errors
+	if low < 0 || high < 0 {
+		return -1
+	}
 	if (level < b.level(low)) && (level < b.level(high)) {
 		return b.Makenode(level, low, high)
 	}
-- 
2.43.0


From bb7caf5c22cd590b996d3eb6406fdb75d5716fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 07/21] fix: Retnode refuses the first id after the end of the
 node table

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index f660f8c..66d07de 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -20,7 +20,7 @@ func (b *tables) Retnode(n int) Node {
 		// error during the computation of n
 		return nil
 	}
-	if n > len(b.nodes) {
+	if n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
 		}
diff --git a/hkernel.go b/hkernel.go
index a9785c3..3493c54 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -20,7 +20,7 @@ func (b *tables) Retnode(n int) Node {
 		// error during the computation of n
 		return nil
 	}
-	if n > len(b.nodes) {
+	if n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
 		}
-- 
2.43.0


From 14aee60ca6f877b828de02648b0528d00519ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 08/21] fix: do not truncate the index of a variable before
 checking it

---
 bdd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdd.go b/bdd.go
index c3ef397..5cc1ffd 100644
--- a/bdd.go
+++ b/bdd.go
@@ -273,7 +273,7 @@ func (b *BDD) checkptr(n Node) error {
 // expression xi), otherwise we set the error status in the BDD and returns the
 // nil node. The requested variable must be in the range [0..Varnum).
 func (b *BDD) Ithvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to ithvar", i)
 	}
 	// we do not need to reference count variables
@@ -284,7 +284,7 @@ func (b *BDD) Ithvar(i int) Node {
 // success (the expression !xi), otherwise the nil node. See *ithvar* for
 // further info.
 func (b *BDD) NIthvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to nithvar", i)
 	}
 	// we do not need to reference count variables
-- 
2.43.0


From c0a09862a8e4697b26e547025fa5194f9f2dcd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 09/21] fix: NewReplacer returns an error for all invalid
 arguments

It panicked on indices outside of [0..Varnum), and accepted duplicates in
newvars.
---
 replace.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/replace.go b/replace.go
index 6a33658..bf539cc 100644
--- a/replace.go
+++ b/replace.go
@@ -74,14 +74,14 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 		res.image[k] = int32(k)
 	}
 	for k, v := range oldvars {
-		if support[v] {
-			return nil, fmt.Errorf("duplicate variable (%d) in oldvars", v)
-		}
-		if v >= varnum {
+		if v < 0 || v >= varnum {
 			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
 		}
-		if newvars[k] >= varnum {
-			return nil, fmt.Errorf("invalid variable in newvars (%d)", v)
+		if newvars[k] < 0 || newvars[k] >= varnum {
+			return nil, fmt.Errorf("invalid variable in newvars (%d)", newvars[k])
+		}
+		if support[v] {
+			return nil, fmt.Errorf("duplicate variable (%d) in oldvars", v)
 		}
 		support[v] = true
 		res.image[v] = int32(newvars[k])
@@ -89,7 +89,12 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 			res.last = int32(v)
 		}
 	}
+	newsupport := make([]bool, varnum)
 	for _, v := range newvars {
+		if newsupport[v] {
+			return nil, fmt.Errorf("duplicate variable (%d) in newvars", v)
+		}
+		newsupport[v] = true
 		if int(res.image[v]) != v {
 			return nil, fmt.Errorf("variable in newvars (%d) also occur in oldvars", v)
 		}
-- 
2.43.0


From 6a95f24dd6951a6e6954c7e7ae4dc2f5d4a5a8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 10/21] fix: data race on the identifier of replacers between
 distinct BDDs

---
 replace.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/replace.go b/replace.go
index bf539cc..e877fa0 100644
--- a/replace.go
+++ b/replace.go
@@ -7,9 +7,13 @@ package rudd
 import (
 	"fmt"
 	"math"
+	"sync"
 )
 
+// _REPLACEID is the identifier of the next replacer. It is shared by all the
+// BDDs, that can be used in different goroutines.
 var _REPLACEID = 1
+var _REPLACEMUTEX sync.Mutex
 
 // Replacer is the types of substitution objects used in a Replace operation,
 // that substitutes variables in a BDD "function". The only method returning an
@@ -62,11 +66,14 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 	if len(oldvars) != len(newvars) {
 		return nil, fmt.Errorf("unmatched length of slices")
 	}
+	_REPLACEMUTEX.Lock()
 	if _REPLACEID == (math.MaxInt32 >> 2) {
+		_REPLACEMUTEX.Unlock()
 		return nil, fmt.Errorf("too many replacers created")
 	}
 	res.id = (_REPLACEID << 2) | cacheidREPLACE
 	_REPLACEID++
+	_REPLACEMUTEX.Unlock()
 	varnum := b.Varnum()
 	support := make([]bool, varnum)
 	res.image = make([]int32, varnum)
-- 
2.43.0


From 514031c5bfaabd6d5266474c8c3b9407191ecfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 11/21] fix: Dot reports an invalid node instead of writing an
 empty graph

---
 stdio.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stdio.go b/stdio.go
index 05686f8..a7d9e33 100644
--- a/stdio.go
+++ b/stdio.go
@@ -100,7 +100,7 @@ func (b *BDD) Dot(w io.Writer, n ...Node) error {
 	// False constant.
 	fmt.Fprintln(w, "digraph G {")
 	fmt.Fprintln(w, "1 [shape=box, label=\"1\", style=filled, shape=box, height=0.3, width=0.3];")
-	_ = b.Allnodes(func(id, level, low, high int) error {
+	err := b.Allnodes(func(id, level, low, high int) error {
 		if id > 1 {
 			fmt.Fprintf(w, "%d %s\n", id, dotlabel(id, level))
 			if low != 0 {
@@ -112,6 +112,9 @@ func (b *BDD) Dot(w io.Writer, n ...Node) error {
 		}
 		return nil
 	}, n...)
+	if err != nil {
+		return err
+	}
 	fmt.Fprintln(w, "}")
 	return nil
 }
-- 
2.43.0


From 14a45662de9a6258b489cbf8479c6be110d79066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 12/21] fix: And and Or check their operand when there is only
 one

---
 bdd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bdd.go b/bdd.go
index 5cc1ffd..58fe838 100644
--- a/bdd.go
+++ b/bdd.go
@@ -327,6 +327,9 @@ func (b *BDD) High(n Node) Node {
 // computes the intersection of a sequence of Boolean vectors.
 func (b *BDD) And(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to And")
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
@@ -339,6 +342,9 @@ func (b *BDD) And(n ...Node) Node {
 // the union of a sequence of Boolean vectors.
 func (b *BDD) Or(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to Or")
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
-- 
2.43.0


From faecb3a6341e564605da8b3a41d7c8e905dfef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 13/21] fix: Makeset and Makecube never build ill-formed nodes

They accepted variables outside the scope of the BDD, and built nodes that do
not respect the order between variables when the list was not sorted.
---
 operations.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/operations.go b/operations.go
index 9e4196d..e64a64e 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"sort"
 )
 
 // Scanset returns the set of variables (levels) found when following the high
@@ -43,13 +44,24 @@ func (b *BDD) Makeset(varset []int) Node {
 	// 	res = tmp
 	// }
 	// return res
+	vars := append([]int{}, varset...)
+	sort.Ints(vars)
 	res := 1
 	b.Initref()
-	for k := len(varset) - 1; k >= 0; k-- {
-		res = b.Makenode(int32(varset[k]), 0, res)
+	for k := len(vars) - 1; k >= 0 && res >= 0; k-- {
+		level := int(b.level(res))
+		if res > 1 && vars[k] == level {
+			// same variable listed twice
+			continue
+		}
+		if vars[k] < 0 || vars[k] >= level {
+			b.seterror("Unknown variable used (%d) in call to Makeset", vars[k])
+			return bddzero
+		}
+		res = b.Makenode(int32(vars[k]), 0, res)
 		b.Pushref(res)
 	}
-	b.Popref(len(varset))
+	b.Initref()
 	return b.Retnode(res)
 }
 
@@ -60,8 +72,9 @@ func (b *BDD) Makeset(varset []int) Node {
 // and polarity are different. As a special case, when varset is empty
 // (len(varset) == 0), we consider that polarity operates over all the variables
 // in b (and therefore we expect that len(polarity) == Varnum). This method is
-// more efficient than using Apply iteratively. The computation may panic if
-// indices in varset are not sorted by order of increasing values.
+// more efficient than using Apply iteratively. We also return nil and set the
+// error condition if indices in varset are not sorted by order of increasing
+// values, or if one of them is outside the scope of the BDD.
 func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 	res := 1
 	if len(varset) == 0 {
@@ -85,6 +98,9 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 	}
 	b.Initref()
 	for k := len(polarity) - 1; k >= 0; k-- {
+		if res >= 0 && (varset[k] < 0 || varset[k] >= int(b.level(res))) {
+			return b.seterror("unsorted or unknown variable (%d) in Makecube", varset[k])
+		}
 		if polarity[k] {
 			res = b.Makenode(int32(varset[k]), 0, res)
 		} else {
-- 
2.43.0


From 12827142341282e13445f4a1d5de9806c32d253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 14/21] fix: the nodes traversed by Allsat and Allnodes are not
 reclaimed meanwhile

The callback can create nodes, and so trigger a GC, after the last use of the
node by the caller.
---
 operations.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/operations.go b/operations.go
index e64a64e..d7b0327 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"runtime"
 	"sort"
 )
 
@@ -725,7 +726,8 @@ func (b *BDD) Allsat(f func([]int) error, n Node) error {
 		prof[k] = -1
 	}
 	// the function does not create new nodes, so we do not need to take care of
-	// possible resizing
+	// possible resizing. But f may, so we make sure that n is not reclaimed.
+	defer runtime.KeepAlive(n)
 	return b.allsat(*n, prof, f)
 }
 
@@ -774,7 +776,8 @@ func (b *BDD) Allnodes(f func(id, level, low, high int) error, n ...Node) error
 		}
 	}
 	// the function does not create new nodes, so we do not need to take care of
-	// possible resizing.
+	// possible resizing. But f may, so we make sure that n is not reclaimed.
+	defer runtime.KeepAlive(n)
 	if len(n) == 0 {
 		// we call f over all active nodes
 		return b.allnodes(f)
-- 
2.43.0


From 225b1e1006a3d394923e459332a879e59c5f8939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 15/21] fix: no node is marked when Allnodes calls its callback

A callback that creates nodes could trigger a GC, which was confused by the
marks and reclaimed nodes in use; reference counts (Hudd) and levels (BuDDy) of
marked nodes were also wrong for the callback.
---
 bkernel.go |  9 ---------
 buddy.go   | 21 +++++++++------------
 hkernel.go |  9 ---------
 hudd.go    | 32 ++++++++++----------------------
 4 files changed, 19 insertions(+), 52 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 66d07de..575bec5 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -260,12 +260,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/buddy.go b/buddy.go
index 7e16560..d1d8521 100644
--- a/buddy.go
+++ b/buddy.go
@@ -171,21 +171,18 @@ func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node)
 	for _, v := range n {
 		b.markrec(*v)
 	}
-	// if err := f(0, int(b.nodes[0].level), 0, 0); err != nil {
-	// 	b.unmarkall()
-	// 	return err
-	// }
-	// if err := f(1, int(b.nodes[1].level), 1, 1); err != nil {
-	// 	b.unmarkall()
-	// 	return err
-	// }
+	// we collect the nodes and remove the marks before the first call to f, since
+	// f may also use the BDD
+	nodes := [][4]int{}
 	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			nodes = append(nodes, [4]int{k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high})
+		}
+	}
+	for _, v := range nodes {
+		if err := f(v[0], v[1], v[2], v[3]); err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/hkernel.go b/hkernel.go
index 3493c54..f43bf0c 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -211,12 +211,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/hudd.go b/hudd.go
index 7e8fd48..da69085 100644
--- a/hudd.go
+++ b/hudd.go
@@ -245,30 +245,18 @@ func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node)
 	for _, v := range n {
 		b.markrec(*v)
 	}
-	// if err := f(0, int(b.nodes[0].level), 0, 0); err != nil {
-	// 	b.unmarkall()
-	// 	return err
-	// }
-	// if err := f(1, int(b.nodes[1].level), 1, 1); err != nil {
-	// 	b.unmarkall()
-	// 	return err
-	// }
-	b.RLock()
-	count := len(b.nodes)
-	b.RUnlock()
-
-	for k := 0; k < count; k++ {
-		b.RLock()
-		if k >= len(b.nodes) {
-			break
-		}
-		b.RUnlock()
+	// we collect the nodes and remove the marks before the first call to f, since
+	// f may also use the BDD
+	nodes := [][4]int{}
+	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			nodes = append(nodes, [4]int{k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high})
+		}
+	}
+	for _, v := range nodes {
+		if err := f(v[0], v[1], v[2], v[3]); err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From 5b9278cf39e62e71cbd3821c1a7199ad1b48aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 16/21] fix: a node with a saturated reference counter is never
 reclaimed

References beyond the capacity of the counter are not counted, so we should not
decrement it when the other ones are finalized.
---
 buddy.go | 5 ++++-
 hudd.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/buddy.go b/buddy.go
index d1d8521..8eda5ab 100644
--- a/buddy.go
+++ b/buddy.go
@@ -127,7 +127,10 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// a saturated counter is not accurate, so the node must stay for ever
+		if impl.nodes[*n].refcou < _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	for k := 0; k < config.varnum; k++ {
 		v0, _ := impl.makenode(int32(k), 0, 1, nil)
diff --git a/hudd.go b/hudd.go
index da69085..a945e48 100644
--- a/hudd.go
+++ b/hudd.go
@@ -151,7 +151,10 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// a saturated counter is not accurate, so the node must stay for ever
+		if impl.nodes[*n].refcou&0x1FFFFF < _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	b.tables = impl
 	b.cacheinit(config)
-- 
2.43.0


From 269bbd523c96f87fc59e1eeecd04d44fdd52c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 17/21] fix: data races between finalizers and operations

Finalizers run in their own goroutine. They lost, or could be lost by, the
updates of the reference counters made in Retnode and during a resize.
---
 bkernel.go | 21 ++++++++++++++++-----
 buddy.go   | 12 ++++++++----
 hkernel.go | 26 ++++++++++++++++++++------
 hudd.go    |  2 +-
 4 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 575bec5..db5c54d 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -33,8 +33,13 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
-	if b.nodes[n].refcou < _MAXREFCOUNT {
+	b.refmutex.Lock()
+	counted := b.nodes[n].refcou < _MAXREFCOUNT
+	if counted {
 		b.nodes[n].refcou++
+	}
+	b.refmutex.Unlock()
+	if counted {
 		runtime.SetFinalizer(&x, b.nodefinalizer)
 		if _DEBUG {
 			atomic.AddUint64(&(b.setfinalizers), 1)
@@ -138,9 +143,12 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	// finalizers may change the reference counts
+	b.refmutex.Lock()
 	tmp := b.nodes
 	b.nodes = make([]buddynode, nodesize)
 	copy(b.nodes, tmp)
+	b.refmutex.Unlock()
 
 	for n := 0; n < oldsize; n++ {
 		b.nodes[n].hash = 0
@@ -198,17 +206,17 @@ func (b *tables) gbc(refstack []int) {
 
 	// we append the current stats to the GC history
 	if _DEBUG {
+		calledfinalizers := atomic.SwapUint64(&(b.gcstat.calledfinalizers), 0)
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
 			nodes:            len(b.nodes),
 			freenodes:        b.freenum,
 			setfinalizers:    int(b.gcstat.setfinalizers),
-			calledfinalizers: int(b.gcstat.calledfinalizers),
+			calledfinalizers: int(calledfinalizers),
 		})
 		if _LOGLEVEL > 0 {
-			log.Printf("runtime.GC() reclaimed %d references\n", b.gcstat.calledfinalizers)
+			log.Printf("runtime.GC() reclaimed %d references\n", calledfinalizers)
 		}
 		b.gcstat.setfinalizers = 0
-		b.gcstat.calledfinalizers = 0
 	} else {
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
 			nodes:     len(b.nodes),
@@ -222,7 +230,10 @@ func (b *tables) gbc(refstack []int) {
 	// we also protect nodes with a positive refcount (and therefore also the
 	// ones with a MAXREFCOUNT, such has variables)
 	for k := range b.nodes {
-		if b.nodes[k].refcou > 0 {
+		b.refmutex.Lock()
+		referenced := b.nodes[k].refcou > 0
+		b.refmutex.Unlock()
+		if referenced {
 			b.markrec(k)
 		}
 		b.nodes[k].hash = 0
diff --git a/buddy.go b/buddy.go
index 8eda5ab..d97e3f8 100644
--- a/buddy.go
+++ b/buddy.go
@@ -9,6 +9,7 @@ package rudd
 import (
 	"fmt"
 	"log"
+	"sync"
 	"sync/atomic"
 	"unsafe"
 )
@@ -17,6 +18,7 @@ import (
 // Diagrams based on the data structures and algorithms found in the BuDDy
 // library.
 type tables struct {
+	refmutex      sync.Mutex  // Protects the reference counts, that are also updated by finalizers
 	nodes         []buddynode // List of all the BDD nodes. Constants are always kept at index 0 and 1
 	freenum       int         // Number of free nodes
 	freepos       int         // First free node
@@ -121,6 +123,8 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl.freenum = nodesize - 2
 	impl.gcstat.history = []gcpoint{}
 	impl.nodefinalizer = func(n *int) {
+		impl.refmutex.Lock()
+		defer impl.refmutex.Unlock()
 		if _DEBUG {
 			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)
 			if _LOGLEVEL > 2 {
@@ -198,9 +202,9 @@ func (b *tables) allnodes(f func(id, level, low, high int) error) error {
 	// if err := f(1, int(b.nodes[1].level), 1, 1); err != nil {
 	// 	return err
 	// }
-	for k, v := range b.nodes {
-		if v.low != -1 {
-			if err := f(k, int(v.level), v.low, v.high); err != nil {
+	for k := range b.nodes {
+		if b.nodes[k].low != -1 {
+			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
 				return err
 			}
 		}
@@ -220,7 +224,7 @@ func (b *tables) stats() string {
 	res += fmt.Sprintf("# of GC:    %d\n", len(b.gcstat.history))
 	if _DEBUG {
 		allocated := int(b.gcstat.setfinalizers)
-		reclaimed := int(b.gcstat.calledfinalizers)
+		reclaimed := int(atomic.LoadUint64(&(b.gcstat.calledfinalizers)))
 		for _, g := range b.gcstat.history {
 			allocated += g.setfinalizers
 			reclaimed += g.calledfinalizers
diff --git a/hkernel.go b/hkernel.go
index f43bf0c..79e9807 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -33,8 +33,13 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
-	if b.nodes[n].refcou < _MAXREFCOUNT {
+	b.Lock()
+	counted := b.nodes[n].refcou < _MAXREFCOUNT
+	if counted {
 		b.nodes[n].refcou++
+	}
+	b.Unlock()
+	if counted {
 		runtime.SetFinalizer(&x, b.nodefinalizer)
 		if _DEBUG {
 			atomic.AddUint64(&(b.setfinalizers), 1)
@@ -99,17 +104,17 @@ func (b *tables) gbc(refstack []int) {
 
 	// we append the current stats to the GC history
 	if _DEBUG {
+		calledfinalizers := atomic.SwapUint64(&(b.gcstat.calledfinalizers), 0)
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
 			nodes:            len(b.nodes),
 			freenodes:        b.freenum,
 			setfinalizers:    int(b.gcstat.setfinalizers),
-			calledfinalizers: int(b.gcstat.calledfinalizers),
+			calledfinalizers: int(calledfinalizers),
 		})
 		if _LOGLEVEL > 0 {
-			log.Printf("runtime.GC() reclaimed %d references\n", b.gcstat.calledfinalizers)
+			log.Printf("runtime.GC() reclaimed %d references\n", calledfinalizers)
 		}
 		b.gcstat.setfinalizers = 0
-		b.gcstat.calledfinalizers = 0
 	} else {
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
 			nodes:     len(b.nodes),
@@ -123,7 +128,10 @@ func (b *tables) gbc(refstack []int) {
 	// we also protect nodes with a positive refcount (and therefore also the
 	// ones with a MAXREFCOUNT, such has variables)
 	for k := range b.nodes {
-		if b.nodes[k].refcou > 0 {
+		b.RLock()
+		referenced := b.nodes[k].refcou > 0
+		b.RUnlock()
+		if referenced {
 			b.markrec(k)
 		}
 	}
@@ -136,7 +144,10 @@ func (b *tables) gbc(refstack []int) {
 		if b.ismarked(n) && (b.nodes[n].low != -1) {
 			b.unmarknode(n)
 		} else {
-			b.delnode(b.nodes[n])
+			b.RLock()
+			hn := b.nodes[n]
+			b.RUnlock()
+			b.delnode(hn)
 			b.nodes[n].low = -1
 			b.nodes[n].high = b.freepos
 			b.freepos = n
@@ -180,9 +191,12 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	// finalizers may change the reference counts
+	b.Lock()
 	tmp := b.nodes
 	b.nodes = make([]huddnode, nodesize)
 	copy(b.nodes, tmp)
+	b.Unlock()
 
 	for n := oldsize; n < nodesize; n++ {
 		b.nodes[n].refcou = 0
diff --git a/hudd.go b/hudd.go
index a945e48..97cad10 100644
--- a/hudd.go
+++ b/hudd.go
@@ -306,7 +306,7 @@ func (b *tables) stats() string {
 	res += fmt.Sprintf("# of GC:    %d\n", len(b.gcstat.history))
 	if _DEBUG {
 		allocated := int(b.gcstat.setfinalizers)
-		reclaimed := int(b.gcstat.calledfinalizers)
+		reclaimed := int(atomic.LoadUint64(&(b.gcstat.calledfinalizers)))
 		for _, g := range b.gcstat.history {
 			allocated += g.setfinalizers
 			reclaimed += g.calledfinalizers
-- 
2.43.0


From 089287464ae17a8a64ff80d5ced36e298b2823b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 18/21] fix: the default implementation does not compile on 32
 bits architectures

---
 hudd.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/hudd.go b/hudd.go
index 97cad10..666b87a 100644
--- a/hudd.go
+++ b/hudd.go
@@ -171,19 +171,21 @@ func (b *tables) huddhash(level int32, low, high int) {
 	b.hbuff[6] = byte(low >> 16)
 	b.hbuff[7] = byte(low >> 24)
 	if huddsize == 20 {
-		// 64 bits machine
-		b.hbuff[8] = byte(low >> 32)
-		b.hbuff[9] = byte(low >> 40)
-		b.hbuff[10] = byte(low >> 48)
-		b.hbuff[11] = byte(low >> 56)
-		b.hbuff[12] = byte(high)
-		b.hbuff[13] = byte(high >> 8)
-		b.hbuff[14] = byte(high >> 16)
-		b.hbuff[15] = byte(high >> 24)
-		b.hbuff[16] = byte(high >> 32)
-		b.hbuff[17] = byte(high >> 40)
-		b.hbuff[18] = byte(high >> 48)
-		b.hbuff[19] = byte(high >> 56)
+		// 64 bits machine. We use a slice because constant indices would not
+		// compile on a 32 bits machine.
+		hbuff := b.hbuff[:]
+		hbuff[8] = byte(low >> 32)
+		hbuff[9] = byte(low >> 40)
+		hbuff[10] = byte(low >> 48)
+		hbuff[11] = byte(low >> 56)
+		hbuff[12] = byte(high)
+		hbuff[13] = byte(high >> 8)
+		hbuff[14] = byte(high >> 16)
+		hbuff[15] = byte(high >> 24)
+		hbuff[16] = byte(high >> 32)
+		hbuff[17] = byte(high >> 40)
+		hbuff[18] = byte(high >> 48)
+		hbuff[19] = byte(high >> 56)
 		return
 	}
 	// 32 bits machine
-- 
2.43.0


From 9b2f7dd14cbc10064f85ca48cf41263101cfc21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 19/21] fix: 64 bits atomic counters of the debug build are not
 aligned on 32 bits architectures

---
 bdd.go     | 7 ++++---
 bkernel.go | 9 ++++-----
 buddy.go   | 7 +++----
 hkernel.go | 9 ++++-----
 hudd.go    | 7 +++----
 5 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/bdd.go b/bdd.go
index 58fe838..5a3a648 100644
--- a/bdd.go
+++ b/bdd.go
@@ -6,6 +6,7 @@ package rudd
 
 import (
 	"fmt"
+	"sync/atomic"
 )
 
 // // BDD is an interface implementing the basic operations over Binary Decision
@@ -240,9 +241,9 @@ func (b *BDD) Popref(a int) {
 // gcstat stores status information about garbage collections. We use a stack
 // (slice) of objects to record the sequence of GC during a computation.
 type gcstat struct {
-	setfinalizers    uint64    // Total number of external references to BDD nodes
-	calledfinalizers uint64    // Number of external references that were freed
-	history          []gcpoint // Snaphot of GC stats at each occurrence
+	setfinalizers    atomic.Uint64 // Total number of external references to BDD nodes
+	calledfinalizers atomic.Uint64 // Number of external references that were freed
+	history          []gcpoint     // Snaphot of GC stats at each occurrence
 }
 
 type gcpoint struct {
diff --git a/bkernel.go b/bkernel.go
index db5c54d..077c58b 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -10,7 +10,6 @@ import (
 	"log"
 	"math"
 	"runtime"
-	"sync/atomic"
 )
 
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
@@ -42,7 +41,7 @@ func (b *tables) Retnode(n int) Node {
 	if counted {
 		runtime.SetFinalizer(&x, b.nodefinalizer)
 		if _DEBUG {
-			atomic.AddUint64(&(b.setfinalizers), 1)
+			b.setfinalizers.Add(1)
 			if _LOGLEVEL > 2 {
 				log.Printf("inc refcou %d\n", n)
 			}
@@ -206,17 +205,17 @@ func (b *tables) gbc(refstack []int) {
 
 	// we append the current stats to the GC history
 	if _DEBUG {
-		calledfinalizers := atomic.SwapUint64(&(b.gcstat.calledfinalizers), 0)
+		calledfinalizers := b.gcstat.calledfinalizers.Swap(0)
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
 			nodes:            len(b.nodes),
 			freenodes:        b.freenum,
-			setfinalizers:    int(b.gcstat.setfinalizers),
+			setfinalizers:    int(b.gcstat.setfinalizers.Load()),
 			calledfinalizers: int(calledfinalizers),
 		})
 		if _LOGLEVEL > 0 {
 			log.Printf("runtime.GC() reclaimed %d references\n", calledfinalizers)
 		}
-		b.gcstat.setfinalizers = 0
+		b.gcstat.setfinalizers.Store(0)
 	} else {
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
 			nodes:     len(b.nodes),
diff --git a/buddy.go b/buddy.go
index d97e3f8..0a85f2c 100644
--- a/buddy.go
+++ b/buddy.go
@@ -10,7 +10,6 @@ import (
 	"fmt"
 	"log"
 	"sync"
-	"sync/atomic"
 	"unsafe"
 )
 
@@ -126,7 +125,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 		impl.refmutex.Lock()
 		defer impl.refmutex.Unlock()
 		if _DEBUG {
-			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)
+			impl.gcstat.calledfinalizers.Add(1)
 			if _LOGLEVEL > 2 {
 				log.Printf("dec refcou %d\n", *n)
 			}
@@ -223,8 +222,8 @@ func (b *tables) stats() string {
 	res += "==============\n"
 	res += fmt.Sprintf("# of GC:    %d\n", len(b.gcstat.history))
 	if _DEBUG {
-		allocated := int(b.gcstat.setfinalizers)
-		reclaimed := int(atomic.LoadUint64(&(b.gcstat.calledfinalizers)))
+		allocated := int(b.gcstat.setfinalizers.Load())
+		reclaimed := int(b.gcstat.calledfinalizers.Load())
 		for _, g := range b.gcstat.history {
 			allocated += g.setfinalizers
 			reclaimed += g.calledfinalizers
diff --git a/hkernel.go b/hkernel.go
index 79e9807..2bc0007 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -10,7 +10,6 @@ import (
 	"log"
 	"math"
 	"runtime"
-	"sync/atomic"
 )
 
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
@@ -42,7 +41,7 @@ func (b *tables) Retnode(n int) Node {
 	if counted {
 		runtime.SetFinalizer(&x, b.nodefinalizer)
 		if _DEBUG {
-			atomic.AddUint64(&(b.setfinalizers), 1)
+			b.setfinalizers.Add(1)
 			if _LOGLEVEL > 2 {
 				log.Printf("inc refcou %d\n", n)
 			}
@@ -104,17 +103,17 @@ func (b *tables) gbc(refstack []int) {
 
 	// we append the current stats to the GC history
 	if _DEBUG {
-		calledfinalizers := atomic.SwapUint64(&(b.gcstat.calledfinalizers), 0)
+		calledfinalizers := b.gcstat.calledfinalizers.Swap(0)
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
 			nodes:            len(b.nodes),
 			freenodes:        b.freenum,
-			setfinalizers:    int(b.gcstat.setfinalizers),
+			setfinalizers:    int(b.gcstat.setfinalizers.Load()),
 			calledfinalizers: int(calledfinalizers),
 		})
 		if _LOGLEVEL > 0 {
 			log.Printf("runtime.GC() reclaimed %d references\n", calledfinalizers)
 		}
-		b.gcstat.setfinalizers = 0
+		b.gcstat.setfinalizers.Store(0)
 	} else {
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
 			nodes:     len(b.nodes),
diff --git a/hudd.go b/hudd.go
index 666b87a..7b7d7cb 100644
--- a/hudd.go
+++ b/hudd.go
@@ -11,7 +11,6 @@ import (
 	"fmt"
 	"log"
 	"sync"
-	"sync/atomic"
 	"unsafe"
 )
 
@@ -146,7 +145,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 		b.Lock()
 		defer b.Unlock()
 		if _DEBUG {
-			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)
+			impl.gcstat.calledfinalizers.Add(1)
 			if _LOGLEVEL > 2 {
 				log.Printf("dec refcou %d\n", *n)
 			}
@@ -307,8 +306,8 @@ func (b *tables) stats() string {
 	res += "==============\n"
 	res += fmt.Sprintf("# of GC:    %d\n", len(b.gcstat.history))
 	if _DEBUG {
-		allocated := int(b.gcstat.setfinalizers)
-		reclaimed := int(atomic.LoadUint64(&(b.gcstat.calledfinalizers)))
+		allocated := int(b.gcstat.setfinalizers.Load())
+		reclaimed := int(b.gcstat.calledfinalizers.Load())
 		for _, g := range b.gcstat.history {
 			allocated += g.setfinalizers
 			reclaimed += g.calledfinalizers
-- 
2.43.0


From a3de29a541fbbcb0cb0a9435800ab433bd993a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 20/21] fix: the lock of the default implementation is
 exported, and missing from the buddy build

---
 hkernel.go | 16 ++++++++--------
 hudd.go    | 50 +++++++++++++++++++++++++-------------------------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/hkernel.go b/hkernel.go
index 2bc0007..befce22 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -32,12 +32,12 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
-	b.Lock()
+	b.mu.Lock()
 	counted := b.nodes[n].refcou < _MAXREFCOUNT
 	if counted {
 		b.nodes[n].refcou++
 	}
-	b.Unlock()
+	b.mu.Unlock()
 	if counted {
 		runtime.SetFinalizer(&x, b.nodefinalizer)
 		if _DEBUG {
@@ -127,9 +127,9 @@ func (b *tables) gbc(refstack []int) {
 	// we also protect nodes with a positive refcount (and therefore also the
 	// ones with a MAXREFCOUNT, such has variables)
 	for k := range b.nodes {
-		b.RLock()
+		b.mu.RLock()
 		referenced := b.nodes[k].refcou > 0
-		b.RUnlock()
+		b.mu.RUnlock()
 		if referenced {
 			b.markrec(k)
 		}
@@ -143,9 +143,9 @@ func (b *tables) gbc(refstack []int) {
 		if b.ismarked(n) && (b.nodes[n].low != -1) {
 			b.unmarknode(n)
 		} else {
-			b.RLock()
+			b.mu.RLock()
 			hn := b.nodes[n]
-			b.RUnlock()
+			b.mu.RUnlock()
 			b.delnode(hn)
 			b.nodes[n].low = -1
 			b.nodes[n].high = b.freepos
@@ -191,11 +191,11 @@ func (b *tables) noderesize() error {
 	}
 
 	// finalizers may change the reference counts
-	b.Lock()
+	b.mu.Lock()
 	tmp := b.nodes
 	b.nodes = make([]huddnode, nodesize)
 	copy(b.nodes, tmp)
-	b.Unlock()
+	b.mu.Unlock()
 
 	for n := oldsize; n < nodesize; n++ {
 		b.nodes[n].refcou = 0
diff --git a/hudd.go b/hudd.go
index 7b7d7cb..885656e 100644
--- a/hudd.go
+++ b/hudd.go
@@ -20,7 +20,7 @@ import (
 // space but a benefit is that we can easily migrate to a concurrency-safe
 // hashmap if we want to test concurrent data structures.
 type tables struct {
-	sync.RWMutex
+	mu            sync.RWMutex           // Protects the nodes, whose reference counts are also updated by finalizers
 	nodes         []huddnode             // List of all the BDD nodes. Constants are always kept at index 0 and 1
 	unique        map[[huddsize]byte]int // Unicity table, used to associate each triplet to a single node
 	freenum       int                    // Number of free nodes
@@ -43,20 +43,20 @@ type huddnode struct {
 }
 
 func (b *tables) ismarked(n int) bool {
-	b.RLock()
-	defer b.RUnlock()
+	b.mu.RLock()
+	defer b.mu.RUnlock()
 	return (b.nodes[n].refcou & 0x200000) != 0
 }
 
 func (b *tables) marknode(n int) {
-	b.RLock()
-	defer b.RUnlock()
+	b.mu.RLock()
+	defer b.mu.RUnlock()
 	b.nodes[n].refcou |= 0x200000
 }
 
 func (b *tables) unmarknode(n int) {
-	b.RLock()
-	defer b.RUnlock()
+	b.mu.RLock()
+	defer b.mu.RUnlock()
 	b.nodes[n].refcou &= 0x1FFFFF
 }
 
@@ -142,8 +142,8 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	}
 	impl.gcstat.history = []gcpoint{}
 	impl.nodefinalizer = func(n *int) {
-		b.Lock()
-		defer b.Unlock()
+		b.mu.Lock()
+		defer b.mu.Unlock()
 		if _DEBUG {
 			impl.gcstat.calledfinalizers.Add(1)
 			if _LOGLEVEL > 2 {
@@ -205,8 +205,8 @@ func (b *tables) nodehash(level int32, low, high int) (int, bool) {
 // unused slot, except when freenum is 0, in which case it is also 0.
 
 func (b *tables) setnode(level int32, low int, high int, count int32) int {
-	b.Lock()
-	defer b.Unlock()
+	b.mu.Lock()
+	defer b.mu.Unlock()
 	b.huddhash(level, low, high)
 	b.freenum--
 	b.unique[b.hbuff] = b.freepos
@@ -222,26 +222,26 @@ func (b *tables) delnode(hn huddnode) {
 }
 
 func (b *tables) size() int {
-	b.RLock()
-	defer b.RUnlock()
+	b.mu.RLock()
+	defer b.mu.RUnlock()
 	return len(b.nodes)
 }
 
 func (b *tables) level(n int) int32 {
-	b.RLock()
-	defer b.RUnlock()
+	b.mu.RLock()
+	defer b.mu.RUnlock()
 	return b.nodes[n].level
 }
 
 func (b *tables) low(n int) int {
-	b.RLock()
-	defer b.RUnlock()
+	b.mu.RLock()
+	defer b.mu.RUnlock()
 	return b.nodes[n].low
 }
 
 func (b *tables) high(n int) int {
-	b.RLock()
-	defer b.RUnlock()
+	b.mu.RLock()
+	defer b.mu.RUnlock()
 	return b.nodes[n].high
 }
 
@@ -273,17 +273,17 @@ func (b *tables) allnodes(f func(id, level, low, high int) error) error {
 	// if err := f(1, int(b.nodes[1].level), 1, 1); err != nil {
 	// 	return err
 	// }
-	b.RLock()
+	b.mu.RLock()
 	count := len(b.nodes)
-	b.RUnlock()
+	b.mu.RUnlock()
 
 	for k := 0; k < count; k++ {
-		b.RLock()
+		b.mu.RLock()
 		if k >= len(b.nodes) {
 			break
 		}
 		v := b.nodes[k]
-		b.RUnlock()
+		b.mu.RUnlock()
 		if v.low != -1 {
 			if err := f(k, int(v.level), v.low, v.high); err != nil {
 				return err
@@ -295,8 +295,8 @@ func (b *tables) allnodes(f func(id, level, low, high int) error) error {
 
 // stats returns information about the implementation
 func (b *tables) stats() string {
-	b.RLock()
-	defer b.RUnlock()
+	b.mu.RLock()
+	defer b.mu.RUnlock()
 	res := "Impl.:      Hudd\n"
 	res += fmt.Sprintf("Allocated:  %d (%s)\n", len(b.nodes), humanSize(len(b.nodes), unsafe.Sizeof(huddnode{})))
 	res += fmt.Sprintf("Produced:   %d\n", b.produced)
-- 
2.43.0


From 99f2cd022ae8f6e91f4a0489c8eb1d9efbeb4edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 21/21] fix: apply could give a node when one of its operands
 is the result of a failed step

---
 operations.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/operations.go b/operations.go
index d7b0327..40f9b5d 100644
--- a/operations.go
+++ b/operations.go
@@ -177,6 +177,15 @@ func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 }
 
 func (b *BDD) apply(left int, right int) int {
+	// we check for errors first, since the operands can be the result of an
+	// operation that failed, for example in quant
+	if left < 0 || right < 0 {
+		if _DEBUG {
+			log.Printf("error in apply(%d,%d,%s)\n", left, right, Operator(b.applycache.op))
+		}
+		return -1
+	}
+
 	switch Operator(b.applycache.op) {
 	case OPand:
 		if left == right {
@@ -281,14 +290,6 @@ func (b *BDD) apply(left int, right int) int {
 		return -1
 	}
 
-	// we check for errors
-	if left < 0 || right < 0 {
-		if _DEBUG {
-			log.Printf("error in apply(%d,%d,%s)\n", left, right, Operator(b.applycache.op))
-		}
-		return -1
-	}
-
 	// we deal with the other cases where the two operands are constants
 	if (left < 2) && (right < 2) {
 		return opres[b.applycache.op][left][right]
-- 
2.43.0

