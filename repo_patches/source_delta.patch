From 92bc2c54c3d1910d93f9e3bbc1812be994d80c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 01/44] fix: recognize when comparisons before interpolating
 variable values

---
 internal/condition/condition.go | 54 +++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/internal/condition/condition.go b/internal/condition/condition.go
index 713e2d6..74bbe55 100644
--- a/internal/condition/condition.go
+++ b/internal/condition/condition.go
@@ -23,38 +23,48 @@ func Evaluate(condition string, ctx *interpolate.Context) (Result, error) {
 		return Result{ShouldRun: true, Reason: "no condition"}, nil
 	}
 
-	interpolated, err := interpolate.Interpolate(condition, ctx)
-	if err != nil {
-		return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
+	// The operator and the quoted literal are recognized in the condition as it
+	// was written, so that a variable's value can never change how it is parsed.
+	operands := []string{condition}
+	left, op, right, isComparison := splitComparison(strings.TrimSpace(condition))
+	if isComparison {
+		operands = []string{left, right}
 	}
 
-	interpolated = strings.TrimSpace(interpolated)
+	for i, operand := range operands {
+		interpolated, err := interpolate.Interpolate(operand, ctx)
+		if err != nil {
+			return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
+		}
+		operands[i] = interpolated
+	}
 
-	if result, ok := evaluateComparison(interpolated); ok {
-		return result, nil
+	if isComparison {
+		return evaluateOp(trimOperand(operands[0]), op, operands[1]), nil
 	}
 
-	return evaluateTruthy(interpolated), nil
+	return evaluateTruthy(operands[0]), nil
 }
 
-func evaluateComparison(s string) (Result, bool) {
-	if matches := comparisonPatternSQ.FindStringSubmatch(s); len(matches) == 4 {
-		left := strings.TrimSpace(matches[1])
-		op := matches[2]
-		right := matches[3]
-		left = strings.Trim(left, "'\"")
-		return evaluateOp(left, op, right), true
+func splitComparison(s string) (left, op, right string, ok bool) {
+	for _, pattern := range []*regexp.Regexp{comparisonPatternSQ, comparisonPatternDQ} {
+		if matches := pattern.FindStringSubmatch(s); len(matches) == 4 {
+			return matches[1], matches[2], matches[3], true
+		}
 	}
+	return "", "", "", false
+}
 
-	if matches := comparisonPatternDQ.FindStringSubmatch(s); len(matches) == 4 {
-		left := strings.TrimSpace(matches[1])
-		op := matches[2]
-		right := matches[3]
-		left = strings.Trim(left, "'\"")
-		return evaluateOp(left, op, right), true
-	}
+func trimOperand(s string) string {
+	return strings.Trim(strings.TrimSpace(s), "'\"")
+}
 
-	return Result{}, false
+func evaluateComparison(s string) (Result, bool) {
+	left, op, right, ok := splitComparison(s)
+	if !ok {
+		return Result{}, false
+	}
+	return evaluateOp(trimOperand(left), op, right), true
 }
 
 func evaluateOp(left, op, right string) Result {
-- 
2.43.0


From 9708af58673c915c87c8fb3a9bf578f3eed5474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 02/44] fix: interpolate global and task env values only once

---
 internal/runner/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 07f56da..5bf11e9 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -303,10 +303,11 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return err
 	}
 
-	cmdEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(taskEnv, v.Env), cmdCtx)
+	cmdEnv, err := r.interpolateEnv(v.Env, cmdCtx)
 	if err != nil {
 		return err
 	}
+	cmdEnv = babfile.MergeEnvMaps(taskEnv, cmdEnv)
 
 	cmdDir, err := r.resolveDir(task, v.Dir, cmdCtx)
 	if err != nil {
-- 
2.43.0


From 573a053fee9cb229220bb2628b509486c0de9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 03/44] fix: ignore escaped references when resolving variables

---
 internal/interpolate/interpolate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index cd6369d..6feb231 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -146,7 +146,7 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		resolving[name] = true
 		resolvingStack = append(resolvingStack, name)
 
-		matches := Pattern.FindAllStringSubmatch(raw, -1)
+		matches := Pattern.FindAllStringSubmatch(EscapePattern.ReplaceAllString(raw, escapePlaceholder), -1)
 		for _, match := range matches {
 			if len(match) < 2 {
 				continue
-- 
2.43.0


From 058106d896780c3d80a6bafa7834de5b6d13af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 04/44] fix: resolve YAML aliases in every Babfile position

---
 internal/parser/unmarshal.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 5720a8b..a776423 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -137,6 +137,29 @@ func parseBool(path string, node *yaml.Node, target **bool, verrs *errs.Validati
 	return true
 }
 
+// resolveYAMLAliases replaces every alias node below node with the node it
+// refers to. inProgress maps a visited node to whether it is still being walked.
+func resolveYAMLAliases(path string, node *yaml.Node, inProgress map[*yaml.Node]bool) error {
+	inProgress[node] = true
+	for i, child := range node.Content {
+		if child.Kind == yaml.AliasNode {
+			child = child.Alias
+			node.Content[i] = child
+		}
+		walking, visited := inProgress[child]
+		if walking {
+			return &errs.ParseError{Path: path, Line: node.Line, Message: fmt.Sprintf("anchor %q value contains itself", child.Anchor)}
+		}
+		if !visited {
+			if err := resolveYAMLAliases(path, child, inProgress); err != nil {
+				return err
+			}
+		}
+	}
+	inProgress[node] = false
+	return nil
+}
+
 func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 	var root yaml.Node
 	if err := yaml.Unmarshal(data, &root); err != nil {
@@ -147,6 +170,10 @@ func unmarshalBabfile(path string, data []byte) (*babfile.Schema, error) {
 		return nil, &errs.ParseError{Path: path, Message: "invalid document"}
 	}
 
+	if err := resolveYAMLAliases(path, &root, make(map[*yaml.Node]bool)); err != nil {
+		return nil, err
+	}
+
 	doc := root.Content[0]
 	if doc.Kind != yaml.MappingNode {
 		return nil, &errs.ParseError{Path: path, Line: doc.Line, Message: "expected mapping at root"}
-- 
2.43.0


From 946fff16c7b6199d10b0a2fc5b0bd4508ec8c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 05/44] fix: keep CRLF terminated lines in parallel output

---
 internal/runner/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index ac210c6..95f62c4 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -74,6 +74,7 @@ type lineBuffer struct {
 }
 
 func resolveCR(raw string) string {
+	raw = strings.TrimSuffix(raw, "\r")
 	if i := strings.LastIndexByte(raw, '\r'); i >= 0 {
 		return raw[i+1:]
 	}
-- 
2.43.0


From 872588f472a3093051f4e8d4cb3a7719bc32c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 06/44] fix: honor platforms and when on parallel items

---
 internal/runner/parallel.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 6c95998..5230157 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"runtime"
 	"strconv"
 	"strings"
 	"sync"
@@ -69,6 +70,11 @@ func (s *syncState) snapshot() map[string]status {
 }
 
 func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, parentNoColor bool, pctx *ParallelContext) error {
+	pr, err := r.selectParallelItems(pr, taskVars, task.Name)
+	if err != nil {
+		return err
+	}
+
 	labels := make([]string, len(pr.Items))
 	maxLabelLen := 0
 	for i := range pr.Items {
@@ -113,6 +119,28 @@ func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, ta
 	return r.executeParallelInterleaved(ctx, pr, task, tasks, state, labels, maxLabelLen, taskVars, taskEnv, overrideSilent, overrideOutput, noColor, stdout, stderr)
 }
 
+// selectParallelItems drops the items that the current platform or their own
+// when condition exclude.
+func (r *Runner) selectParallelItems(pr babfile.ParallelRun, taskVars map[string]string, taskName string) (babfile.ParallelRun, error) {
+	items := make([]babfile.RunItem, 0, len(pr.Items))
+	labels := make([]string, 0, len(pr.Items))
+	for i, item := range pr.Items {
+		if !item.ShouldRunOnPlatform(runtime.GOOS) {
+			log.Debug("Skipping parallel item", "task", taskName, "index", i+1, "reason", "platform")
+			continue
+		}
+		if skip, err := r.shouldSkipRunItem(item, taskVars, taskName, i+1); err != nil {
+			return pr, err
+		} else if skip {
+			continue
+		}
+		items = append(items, item)
+		labels = append(labels, pr.ItemLabel(i))
+	}
+	pr.Items, pr.Labels = items, labels
+	return pr, nil
+}
+
 func (r *Runner) executeParallelInterleaved(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, labels []string, maxLabelLen int, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, noColor bool, parentOut, parentErr io.Writer) error {
 	var sem chan struct{}
 	if pr.Limit > 0 {
-- 
2.43.0


From c105ae0d644e0b2ba29c29d726bf9b438d0f7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 07/44] fix: keep silent and output of parallel blocks in
 included tasks

---
 internal/parser/include.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index 1a8ae84..fdbf31c 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -124,6 +124,8 @@ func prefixTaskRuns(items []babfile.RunItem, namespace string) []babfile.RunItem
 				Mode:      v.Mode,
 				Limit:     v.Limit,
 				Color:     v.Color,
+				Silent:    v.Silent,
+				Output:    v.Output,
 				Platforms: v.Platforms,
 				When:      v.When,
 			}
-- 
2.43.0


From bcda61073deccb90af92b7e13b6cc07f4a7edce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 08/44] fix: apply the root dir only to the root Babfile's
 tasks

---
 internal/runner/runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 5bf11e9..10a0e8b 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -432,7 +432,7 @@ func (r *Runner) resolveDir(task *babfile.Task, cmdDir string, ctx *interpolate.
 	if dir == "" {
 		dir = task.Dir
 	}
-	if dir == "" {
+	if dir == "" && task.SourcePath == r.BabfilePath {
 		dir = r.GlobalDir
 	}
 
-- 
2.43.0


From 0c6a67a9ae980607f69746dffac2cdfe8e301e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 09/44] fix: keep prompt results out of the shared global
 variables

---
 internal/interpolate/interpolate.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index 6feb231..3ab677f 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -93,18 +93,15 @@ func ResolveVars(vars map[string]string, parentVars map[string]string) (map[stri
 }
 
 func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]string, path string, line int) (map[string]string, error) {
-	if vars == nil {
-		if parentVars == nil {
-			return make(map[string]string), nil
-		}
-		return parentVars, nil
-	}
-
 	resolved := make(map[string]string)
 	for k, v := range parentVars {
 		resolved[k] = v
 	}
 
+	if vars == nil {
+		return resolved, nil
+	}
+
 	resolving := make(map[string]bool)
 	resolvedSet := make(map[string]bool)
 	var resolvingStack []string
-- 
2.43.0


From 5a75dece86aee2d5a4734504e12e55542bcfbddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 10/44] fix: report only real cycles when validating task
 references

---
 internal/parser/validate.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 0076478..96111b4 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"slices"
+
 	"github.com/bab-sh/bab/internal/babfile"
 	"github.com/bab-sh/bab/internal/errs"
 )
@@ -111,11 +113,10 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 			switch v := item.(type) {
 			case babfile.TaskRun:
 				if recStack[v.Task] {
-					chain = append(chain, v.Task)
 					verrs.Add(&errs.CircularDepError{
 						Path:  path,
 						Type:  "dependency",
-						Chain: chain,
+						Chain: append(slices.Clone(chain), v.Task),
 					})
 					return
 				}
@@ -131,21 +132,20 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 	dfs = func(name string, chain []string) {
 		visited[name] = true
 		recStack[name] = true
-		chain = append(chain, name)
+		defer func() { recStack[name] = false }()
+		chain = append(slices.Clone(chain), name)
 
 		task := tasks[name]
 		if task == nil {
-			recStack[name] = false
 			return
 		}
 
 		for _, dep := range task.Deps {
 			if recStack[dep] {
-				chain = append(chain, dep)
 				verrs.Add(&errs.CircularDepError{
 					Path:  path,
 					Type:  "dependency",
-					Chain: chain,
+					Chain: append(slices.Clone(chain), dep),
 				})
 				return
 			}
@@ -155,7 +155,6 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 		}
 
 		checkItems(task.Run, chain)
-		recStack[name] = false
 	}
 
 	for name := range tasks {
-- 
2.43.0


From c54b2ee44ec16321fe5ae1da06f883bf70026614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 11/44] fix: evaluate a task's when with the task's own
 variables

---
 internal/runner/runner.go | 40 ++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 10a0e8b..d4087da 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -155,17 +155,11 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 	}
 
-	if task.When != "" {
-		whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
-		result, err := condition.Evaluate(task.When, whenCtx)
-		if err != nil {
-			return fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-		}
-		if !result.ShouldRun {
-			log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
-			state.set(name, done)
-			return nil
-		}
+	if shouldSkip, err := r.shouldSkipTask(task, name); err != nil {
+		return err
+	} else if shouldSkip {
+		state.set(name, done)
+		return nil
 	}
 
 	if !r.DryRun && !isSilent(overrideSilent, task.Silent, r.GlobalSilent) {
@@ -343,6 +337,30 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 	return nil
 }
 
+func (r *Runner) shouldSkipTask(task *babfile.Task, name string) (bool, error) {
+	if task.When == "" {
+		return false, nil
+	}
+
+	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+	if err != nil {
+		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
+	}
+
+	whenCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, task.Line)
+	result, err := condition.Evaluate(task.When, whenCtx)
+	if err != nil {
+		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
+	}
+
+	if !result.ShouldRun {
+		log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
+		return true, nil
+	}
+
+	return false, nil
+}
+
 func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, taskName string, index int) (bool, error) {
 	whenCond := item.GetWhen()
 	if whenCond == "" {
-- 
2.43.0


From 999c6c6a5afac0783b2c1784fde11d95332abfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 12/44] fix: leave out dependencies of parallel tasks whose
 when is false

---
 internal/runner/parallel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 5230157..19076b7 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -369,6 +369,11 @@ func (r *Runner) preResolveDeps(ctx context.Context, items []babfile.RunItem, ta
 		if !exists {
 			return fmt.Errorf("parallel item references unknown task %q", tr.Task)
 		}
+		if shouldSkip, err := r.shouldSkipTask(task, tr.Task); err != nil {
+			return err
+		} else if shouldSkip {
+			continue
+		}
 		for _, dep := range task.Deps {
 			if seen[dep] {
 				continue
-- 
2.43.0


From 96c9f80379095ccea5960fcadce6ba2e0ed9710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 13/44] fix: name the defining Babfile in errors about included
 tasks

---
 internal/parser/validate.go | 16 ++++++++++++----
 internal/runner/parallel.go | 10 +++++-----
 internal/runner/runner.go   | 30 +++++++++++++++++++-----------
 3 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 96111b4..d84ff9f 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -16,6 +16,14 @@ func validateAll(path string, tasks babfile.TaskMap) error {
 	return verrs.OrNil()
 }
 
+// taskPath is the Babfile that defines the task, which its lines refer to.
+func taskPath(path string, task *babfile.Task) string {
+	if task.SourcePath != "" {
+		return task.SourcePath
+	}
+	return path
+}
+
 func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	type aliasInfo struct {
 		taskName string
@@ -31,7 +39,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 
 			if tasks.Has(alias) {
 				verrs.Add(&errs.AliasConflictError{
-					Path:     path,
+					Path:     taskPath(path, task),
 					Line:     task.Line,
 					Alias:    alias,
 					TaskName: name,
@@ -41,7 +49,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 
 			if existing, exists := aliasToTask[alias]; exists {
 				verrs.Add(&errs.DuplicateAliasError{
-					Path:         path,
+					Path:         taskPath(path, task),
 					Line:         task.Line,
 					Alias:        alias,
 					TaskName:     name,
@@ -65,7 +73,7 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 					line = task.Line
 				}
 				verrs.Add(&errs.TaskNotFoundError{
-					Path:         path,
+					Path:         taskPath(path, task),
 					Line:         line,
 					TaskName:     dep,
 					ReferencedBy: name,
@@ -78,7 +86,7 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 
 func validateRunTaskRefs(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	for name, task := range tasks {
-		validateRunItemTaskRefs(path, name, task.Run, tasks, verrs)
+		validateRunItemTaskRefs(taskPath(path, task), name, task.Run, tasks, verrs)
 	}
 }
 
diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 19076b7..e64980d 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -70,7 +70,7 @@ func (s *syncState) snapshot() map[string]status {
 }
 
 func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, parentNoColor bool, pctx *ParallelContext) error {
-	pr, err := r.selectParallelItems(pr, taskVars, task.Name)
+	pr, err := r.selectParallelItems(pr, taskVars, task)
 	if err != nil {
 		return err
 	}
@@ -121,15 +121,15 @@ func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, ta
 
 // selectParallelItems drops the items that the current platform or their own
 // when condition exclude.
-func (r *Runner) selectParallelItems(pr babfile.ParallelRun, taskVars map[string]string, taskName string) (babfile.ParallelRun, error) {
+func (r *Runner) selectParallelItems(pr babfile.ParallelRun, taskVars map[string]string, task *babfile.Task) (babfile.ParallelRun, error) {
 	items := make([]babfile.RunItem, 0, len(pr.Items))
 	labels := make([]string, 0, len(pr.Items))
 	for i, item := range pr.Items {
 		if !item.ShouldRunOnPlatform(runtime.GOOS) {
-			log.Debug("Skipping parallel item", "task", taskName, "index", i+1, "reason", "platform")
+			log.Debug("Skipping parallel item", "task", task.Name, "index", i+1, "reason", "platform")
 			continue
 		}
-		if skip, err := r.shouldSkipRunItem(item, taskVars, taskName, i+1); err != nil {
+		if skip, err := r.shouldSkipRunItem(item, taskVars, task, i+1); err != nil {
 			return pr, err
 		} else if skip {
 			continue
@@ -338,7 +338,7 @@ func (r *Runner) executeRunItem(ctx context.Context, item babfile.RunItem, task
 		return r.runTask(ctx, v.Task, tasks, state, false, effSilent, effOutput, stdout, stderr, noColor, pctx)
 
 	case babfile.LogRun:
-		logCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+		logCtx := interpolate.NewContextWithLocation(taskVars, r.sourcePath(task), v.Line)
 		interpolatedLog, err := interpolate.Interpolate(v.Log, logCtx)
 		if err != nil {
 			return err
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index d4087da..d1bb4ae 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -200,12 +200,12 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 	executed := 0
 	skippedByCondition := 0
 
-	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.sourcePath(task), task.Line)
 	if err != nil {
 		return err
 	}
 
-	taskCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, task.Line)
+	taskCtx := interpolate.NewContextWithLocation(taskVars, r.sourcePath(task), task.Line)
 
 	taskEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(r.GlobalEnv, task.Env), taskCtx)
 	if err != nil {
@@ -226,7 +226,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 			continue
 		}
 
-		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task, i+1); err != nil {
 			return err
 		} else if shouldSkip {
 			skippedByCondition++
@@ -235,7 +235,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 
 		switch v := item.(type) {
 		case babfile.PromptRun:
-			promptCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+			promptCtx := interpolate.NewContextWithLocation(taskVars, r.sourcePath(task), v.Line)
 
 			interpolated, err := interpolatePrompt(v, promptCtx)
 			if err != nil {
@@ -291,7 +291,7 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return fmt.Errorf("task %q has an empty command", task.Name)
 	}
 
-	cmdCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+	cmdCtx := interpolate.NewContextWithLocation(taskVars, r.sourcePath(task), v.Line)
 	interpolatedCmd, err := interpolate.Interpolate(v.Cmd, cmdCtx)
 	if err != nil {
 		return err
@@ -337,17 +337,25 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 	return nil
 }
 
+// sourcePath is the Babfile that defines the task, which its lines refer to.
+func (r *Runner) sourcePath(task *babfile.Task) string {
+	if task.SourcePath != "" {
+		return task.SourcePath
+	}
+	return r.BabfilePath
+}
+
 func (r *Runner) shouldSkipTask(task *babfile.Task, name string) (bool, error) {
 	if task.When == "" {
 		return false, nil
 	}
 
-	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.sourcePath(task), task.Line)
 	if err != nil {
 		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
 	}
 
-	whenCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, task.Line)
+	whenCtx := interpolate.NewContextWithLocation(taskVars, r.sourcePath(task), task.Line)
 	result, err := condition.Evaluate(task.When, whenCtx)
 	if err != nil {
 		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
@@ -361,20 +369,20 @@ func (r *Runner) shouldSkipTask(task *babfile.Task, name string) (bool, error) {
 	return false, nil
 }
 
-func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, taskName string, index int) (bool, error) {
+func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, task *babfile.Task, index int) (bool, error) {
 	whenCond := item.GetWhen()
 	if whenCond == "" {
 		return false, nil
 	}
 
-	itemCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, item.GetLine())
+	itemCtx := interpolate.NewContextWithLocation(taskVars, r.sourcePath(task), item.GetLine())
 	result, err := condition.Evaluate(whenCond, itemCtx)
 	if err != nil {
-		return false, fmt.Errorf("task %q: run[%d]: evaluating when condition: %w", taskName, index, err)
+		return false, fmt.Errorf("task %q: run[%d]: evaluating when condition: %w", task.Name, index, err)
 	}
 
 	if !result.ShouldRun {
-		log.Debug("Skipping run item", "task", taskName, "index", index, "reason", "when condition", "detail", result.Reason)
+		log.Debug("Skipping run item", "task", task.Name, "index", index, "reason", "when condition", "detail", result.Reason)
 		return true, nil
 	}
 
-- 
2.43.0


From c94671d2b25d397a0e509fc87c2c1c95387028c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 14/44] fix: keep parallel item labels on one line

---
 internal/babfile/run_parallel.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/babfile/run_parallel.go b/internal/babfile/run_parallel.go
index 54cdb23..c61d1e7 100644
--- a/internal/babfile/run_parallel.go
+++ b/internal/babfile/run_parallel.go
@@ -2,6 +2,7 @@ package babfile
 
 import (
 	"encoding/json"
+	"strings"
 
 	"github.com/invopop/jsonschema"
 	orderedmap "github.com/wk8/go-ordered-map/v2"
@@ -75,6 +76,7 @@ func (p ParallelRun) ItemLabel(index int) string {
 }
 
 func truncateRunes(s string, max int) string {
+	s, _, _ = strings.Cut(strings.TrimSpace(s), "\n")
 	r := []rune(s)
 	if len(r) > max {
 		return string(r[:max])
-- 
2.43.0


From 07d9bb58750b3844fa93dda07feae0288f607d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 15/44] fix: kill background children of a finished shell on
 cancellation

---
 internal/runner/runner.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index d1bb4ae..a0f76ac 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -553,7 +553,18 @@ func runCommandWithWriters(ctx context.Context, shell, shellArg, command string,
 		cmd.Dir = dir
 	}
 
-	err := cmd.Run()
+	if err := cmd.Start(); err != nil {
+		if ctx.Err() != nil {
+			return ctx.Err()
+		}
+		return err
+	}
+	// Cancel stops applying once the shell has exited, but Wait goes on for as
+	// long as its background children hold the output open.
+	stop := context.AfterFunc(ctx, func() { _ = signalProcessGroup(cmd) })
+	defer stop()
+
+	err := cmd.Wait()
 	if err != nil && ctx.Err() != nil {
 		return ctx.Err()
 	}
-- 
2.43.0


From 39a9ba70ae29e603c0faca6372cd05079822455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 16/44] fix: let dry runs continue past prompts

---
 internal/runner/runner.go | 1 +
 internal/tui/prompt.go    | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index a0f76ac..6aa6766 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -244,6 +244,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 
 			if r.DryRun {
 				log.Info("Would prompt", "var", interpolated.Prompt, "type", interpolated.Type, "message", interpolated.Message)
+				taskVars[v.Prompt] = tui.PlannedPromptResult(interpolated)
 			} else {
 				result, err := tui.RunPrompt(ctx, interpolated, interpolated.Message)
 				if err != nil {
diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 5fe1230..95a18c5 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -71,6 +71,15 @@ func handleNonInteractive(p babfile.PromptRun) (string, error) {
 	}
 }
 
+// PlannedPromptResult stands for the prompt's result where nobody is asked: its
+// default or, without one, a reference to the prompt's variable.
+func PlannedPromptResult(p babfile.PromptRun) string {
+	if result, err := handleNonInteractive(p); err == nil {
+		return result
+	}
+	return "${{ " + p.Prompt + " }}"
+}
+
 func normalizeConfirmDefault(s string) string {
 	lower := strings.ToLower(s)
 	switch lower {
-- 
2.43.0


From 2b94997bb27e5be87cb184a35b8a869010b1fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 17/44] fix: wait for a task another parallel branch is running

---
 internal/runner/parallel.go | 41 +++++++++++++++++++++++++++++++++++++
 internal/runner/runner.go   | 10 +++++++--
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index e64980d..1b68841 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -35,6 +35,24 @@ func pathToKey(path []int) string {
 type syncState struct {
 	mu    sync.Mutex
 	state map[string]status
+	runs  map[string]*taskRun
+}
+
+type taskRun struct {
+	finished chan struct{}
+	err      error
+}
+
+type ancestorKey string
+
+// withAncestor marks everything run with the returned context as part of the
+// named task.
+func withAncestor(ctx context.Context, name string) context.Context {
+	return context.WithValue(ctx, ancestorKey(name), true)
+}
+
+func isAncestor(ctx context.Context, name string) bool {
+	return ctx.Value(ancestorKey(name)) != nil
 }
 
 func (s *syncState) get(name string) status {
@@ -55,10 +73,33 @@ func (s *syncState) claim(name string) status {
 	current := s.state[name]
 	if current == 0 {
 		s.state[name] = running
+		s.runs[name] = &taskRun{finished: make(chan struct{})}
 	}
 	return current
 }
 
+// finish hands the result of a claimed task to everyone waiting for it.
+func (s *syncState) finish(name string, err error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	run := s.runs[name]
+	run.err = err
+	close(run.finished)
+}
+
+// wait blocks until the task claimed by another branch has finished.
+func (s *syncState) wait(ctx context.Context, name string) error {
+	s.mu.Lock()
+	run := s.runs[name]
+	s.mu.Unlock()
+	select {
+	case <-run.finished:
+		return run.err
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func (s *syncState) snapshot() map[string]status {
 	s.mu.Lock()
 	defer s.mu.Unlock()
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 6aa6766..570ba8f 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -101,7 +101,7 @@ func (r *Runner) RunWithTasks(ctx context.Context, taskName string, tasks babfil
 		}
 	}
 
-	state := &syncState{state: make(map[string]status)}
+	state := &syncState{state: make(map[string]status), runs: make(map[string]*taskRun)}
 	return r.runTask(ctx, taskName, tasks, state, true, nil, nil, nil, nil, false, nil)
 }
 
@@ -132,17 +132,23 @@ func firstNonNil(vals ...*bool) *bool {
 	return nil
 }
 
-func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap, state *syncState, isMain bool, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
+func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap, state *syncState, isMain bool, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) (err error) {
 	switch state.claim(name) {
 	case done:
 		return nil
 	case running:
+		if !isAncestor(ctx, name) {
+			return state.wait(ctx, name)
+		}
 		return &errs.CircularDepError{
 			Type:  "dependency",
 			Chain: buildChainSlice(name, tasks, state.snapshot()),
 		}
 	}
 
+	defer func() { state.finish(name, err) }()
+	ctx = withAncestor(ctx, name)
+
 	task, ok := tasks[name]
 	if !ok {
 		available := tasks.Names()
-- 
2.43.0


From ffafa65b9b65b25d508ac03e17fa0364ac29df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 18/44] fix: use a number prompt's default for an empty answer

---
 internal/tui/prompt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 95a18c5..e38fb33 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -296,5 +296,9 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		return "", err
 	}
 
+	if result == "" {
+		result = p.Default
+	}
+
 	return result, nil
 }
-- 
2.43.0


From 8b0dc58064420c6848d51bb66bdb89bc71463bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 19/44] fix: apply an included file's dir only to the tasks it
 defines

---
 internal/parser/include.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index fdbf31c..53dfeff 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -32,7 +32,7 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 		taskEnv := babfile.MergeEnvMaps(result.GlobalEnv, task.Env)
 
 		taskDir := task.Dir
-		if taskDir == "" {
+		if taskDir == "" && task.SourcePath == result.Path {
 			taskDir = result.GlobalDir
 		}
 
-- 
2.43.0


From 3abcd30a43eb5f3cc5486585f65c1204eb69ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 20/44] fix: compare a when operand's value without trimming it

---
 internal/condition/condition.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/condition/condition.go b/internal/condition/condition.go
index 74bbe55..bca6fc3 100644
--- a/internal/condition/condition.go
+++ b/internal/condition/condition.go
@@ -28,7 +28,7 @@ func Evaluate(condition string, ctx *interpolate.Context) (Result, error) {
 	operands := []string{condition}
 	left, op, right, isComparison := splitComparison(strings.TrimSpace(condition))
 	if isComparison {
-		operands = []string{left, right}
+		operands = []string{trimOperand(left), right}
 	}
 
 	for i, operand := range operands {
@@ -40,7 +40,7 @@ func Evaluate(condition string, ctx *interpolate.Context) (Result, error) {
 	}
 
 	if isComparison {
-		return evaluateOp(trimOperand(operands[0]), op, operands[1]), nil
+		return evaluateOp(operands[0], op, operands[1]), nil
 	}
 
 	return evaluateTruthy(operands[0]), nil
-- 
2.43.0


From 88eb411c48bea9f1afe00238380ffd374298d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 21/44] fix: filter parallel output with a strict escape
 sequence parser

The filter kept CSI sequences ending in m that are no colors, sequences cut
off by the end of a line, C1 control characters and, with colors off, C0
control characters; it also mangled invalid UTF-8 and panicked on sequences
with more than 32 parameters.
---
 internal/runner/writer.go | 125 +++++++++++++++++++++++++++-----------
 1 file changed, 88 insertions(+), 37 deletions(-)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index 95f62c4..a14d673 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -7,6 +7,8 @@ import (
 	"io"
 	"strings"
 	"sync"
+	"unicode"
+	"unicode/utf8"
 
 	tea "charm.land/bubbletea/v2"
 	"charm.land/lipgloss/v2"
@@ -16,56 +18,105 @@ import (
 )
 
 func sanitizeLine(line string) string {
-	if !strings.ContainsRune(line, '\x1b') && !strings.ContainsRune(line, 0x9b) {
-		return stripControlChars(line)
-	}
-	var b strings.Builder
-	b.Grow(len(line))
-	var state byte
-	p := ansi.NewParser()
-	input := line
-	for len(input) > 0 {
-		seq, _, n, newState := ansi.DecodeSequence(input, state, p)
-		if n == 0 {
-			break
-		}
-		state = newState
-		if ansi.HasCsiPrefix(seq) {
-			if p.Command()&0xff == 'm' {
-				b.WriteString(seq)
-			}
-		} else if !ansi.HasOscPrefix(seq) && !ansi.HasEscPrefix(seq) &&
-			!ansi.HasDcsPrefix(seq) && !ansi.HasApcPrefix(seq) {
-			b.WriteString(seq)
-		}
-		input = input[n:]
-	}
-	return stripControlChars(b.String())
+	return cleanLine(line, false)
 }
 
-func stripControlChars(s string) string {
-	if !strings.ContainsFunc(s, isUnsafeControl) {
-		return s
+// maxSGRParams is what the terminal libraries can hold for one sequence.
+const maxSGRParams = 32
+
+// cleanLine removes every escape sequence and control character a terminal
+// would act upon. Color and style sequences are kept unless strip is set.
+func cleanLine(line string, strip bool) string {
+	if !strings.ContainsFunc(line, isUnsafeControl) {
+		return line
 	}
 	var b strings.Builder
-	b.Grow(len(s))
-	for _, r := range s {
-		if !isUnsafeControl(r) {
-			b.WriteRune(r)
+	b.Grow(len(line))
+	removed := false
+	for len(line) > 0 {
+		n := sequenceLen(line)
+		if n > 0 {
+			removed = strip || !isSGR(line[:n])
+		} else {
+			var r rune
+			r, n = utf8.DecodeRuneInString(line)
+			// a stray continuation byte must not complete a character that the
+			// removed text interrupted
+			removed = isUnsafeControl(r) || removed && !utf8.RuneStart(line[0])
 		}
+		if !removed {
+			b.WriteString(line[:n])
+		}
+		line = line[n:]
 	}
 	return b.String()
 }
 
 func isUnsafeControl(r rune) bool {
-	return r < 0x20 && r != '\t' && r != '\x1b'
+	return r != '\t' && unicode.IsControl(r)
 }
 
-func cleanLine(line string, strip bool) string {
-	if strip {
-		return ansi.Strip(line)
+func isSGR(seq string) bool {
+	params, ok := strings.CutPrefix(seq, "\x1b[")
+	if !ok {
+		return false
+	}
+	params, ok = strings.CutSuffix(params, "m")
+	return ok && strings.Trim(params, "0123456789;:") == "" &&
+		strings.Count(params, ";")+strings.Count(params, ":") < maxSGRParams
+}
+
+// sequenceLen returns the length of the escape sequence at the start of s, 0 if
+// there is none. A sequence that s cuts off extends to the end of s.
+func sequenceLen(s string) int {
+	intro, n := utf8.DecodeRuneInString(s)
+	if intro == ansi.ESC {
+		if len(s) == 1 {
+			return 1
+		}
+		// ESC and a byte in this range stand for a C1 control character
+		if s[1] >= '@' && s[1] <= '_' {
+			intro, n = rune(s[1])+0x40, 2
+		}
+	}
+	switch intro {
+	case ansi.CSI:
+		for ; n < len(s); n++ {
+			switch c := s[n]; {
+			case c >= '@' && c <= '~':
+				return n + 1
+			case c == ansi.ESC || c == ansi.CAN || c == ansi.SUB || c >= 0x80:
+				return n
+			}
+		}
+		return n
+	case ansi.OSC, ansi.DCS, ansi.SOS, ansi.PM, ansi.APC:
+		for n < len(s) {
+			r, size := utf8.DecodeRuneInString(s[n:])
+			switch {
+			case r == ansi.ST || r == ansi.BEL && intro == ansi.OSC:
+				return n + size
+			case r == ansi.ESC && strings.HasPrefix(s[n+1:], "\\"):
+				return n + 2
+			case r == ansi.ESC || r == ansi.CAN || r == ansi.SUB:
+				return n
+			}
+			n += size
+		}
+		return n
+	case ansi.ESC:
+		for n < len(s) && s[n] >= ' ' && s[n] <= '/' {
+			n++
+		}
+		if n < len(s) && s[n] >= '0' && s[n] <= '~' {
+			n++
+		}
+		return n
+	}
+	if n == 2 && s[0] == ansi.ESC {
+		return n
 	}
-	return sanitizeLine(line)
+	return 0
 }
 
 type lineBuffer struct {
-- 
2.43.0


From f0e775da21109d2e6f66a91e775808db779f8567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 22/44] fix: let only the context end a TUI program on a signal

---
 internal/tui/parallel.go |  2 +-
 internal/tui/prompt.go   | 22 +++++++++++++++-------
 internal/tui/tui.go      |  2 +-
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/internal/tui/parallel.go b/internal/tui/parallel.go
index c1f701c..8a4d3b9 100644
--- a/internal/tui/parallel.go
+++ b/internal/tui/parallel.go
@@ -46,7 +46,7 @@ type ItemClearChildrenMsg struct {
 type AllDoneMsg struct{}
 
 func RunParallel(model tea.Model) (*tea.Program, error) {
-	program := tea.NewProgram(model, tea.WithOutput(os.Stderr))
+	program := tea.NewProgram(model, tea.WithOutput(os.Stderr), tea.WithoutSignalHandler())
 	go func() {
 		_, _ = program.Run()
 	}()
diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index e38fb33..f2d3160 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -10,6 +10,7 @@ import (
 	"strconv"
 	"strings"
 
+	tea "charm.land/bubbletea/v2"
 	"charm.land/huh/v2"
 	"github.com/bab-sh/bab/internal/babfile"
 	"golang.org/x/term"
@@ -90,6 +91,13 @@ func normalizeConfirmDefault(s string) string {
 	}
 }
 
+// newForm makes a form for one field. Signals end it through the context: a
+// second handler could wait forever for a form that has already ended.
+func newForm(field huh.Field) *huh.Form {
+	return huh.NewForm(huh.NewGroup(field)).
+		WithProgramOptions(tea.WithOutput(os.Stderr), tea.WithoutSignalHandler())
+}
+
 func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (string, error) {
 	var result bool
 
@@ -101,7 +109,7 @@ func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (strin
 		Title(message).
 		Value(&result)
 
-	form := huh.NewForm(huh.NewGroup(confirm))
+	form := newForm(confirm)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
@@ -136,7 +144,7 @@ func runInput(ctx context.Context, p babfile.PromptRun, message string) (string,
 		})
 	}
 
-	form := huh.NewForm(huh.NewGroup(input))
+	form := newForm(input)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
@@ -163,7 +171,7 @@ func runSelect(ctx context.Context, p babfile.PromptRun, message string) (string
 		Options(options...).
 		Value(&result)
 
-	form := huh.NewForm(huh.NewGroup(sel))
+	form := newForm(sel)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
@@ -203,7 +211,7 @@ func runMultiselect(ctx context.Context, p babfile.PromptRun, message string) (s
 		})
 	}
 
-	form := huh.NewForm(huh.NewGroup(multi))
+	form := newForm(multi)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
@@ -222,7 +230,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 		EchoMode(huh.EchoModePassword).
 		Value(&result)
 
-	form := huh.NewForm(huh.NewGroup(pw))
+	form := newForm(pw)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
@@ -243,7 +251,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 				return nil
 			})
 
-		confirmForm := huh.NewForm(huh.NewGroup(confirmPw))
+		confirmForm := newForm(confirmPw)
 		if err := confirmForm.RunWithContext(ctx); err != nil {
 			if errors.Is(err, huh.ErrUserAborted) {
 				return "", ErrPromptCancelled
@@ -288,7 +296,7 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		input.Placeholder(p.Placeholder)
 	}
 
-	form := huh.NewForm(huh.NewGroup(input))
+	form := newForm(input)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
diff --git a/internal/tui/tui.go b/internal/tui/tui.go
index 83645b5..de9d1f1 100644
--- a/internal/tui/tui.go
+++ b/internal/tui/tui.go
@@ -16,7 +16,7 @@ func PickTask(ctx context.Context, tasks babfile.TaskMap) (*babfile.Task, error)
 		return nil, errs.ErrNoTasks
 	}
 
-	result, err := tea.NewProgram(picker.New(tasks), tea.WithContext(ctx)).Run()
+	result, err := tea.NewProgram(picker.New(tasks), tea.WithContext(ctx), tea.WithoutSignalHandler()).Run()
 	if err != nil {
 		if errors.Is(err, tea.ErrProgramKilled) {
 			return nil, context.Canceled
-- 
2.43.0


From 66118d1a04e5b4b283144f3fe7a0f3f4ae8fe641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 23/44] fix: treat a command as cancelled even if its shell
 exited cleanly

---
 internal/runner/parallel.go | 3 +++
 internal/runner/runner.go   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 1b68841..7ca937e 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -340,6 +340,9 @@ func (r *Runner) executeParallelTUI(ctx context.Context, pr babfile.ParallelRun,
 	}
 
 	wg.Wait()
+	if firstErr == nil {
+		firstErr = ctx.Err() // cancelled before the waiting items had started
+	}
 
 	if pctx != nil {
 		program.Send(tui.ItemClearChildrenMsg{Key: pathToKey(basePath)})
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 570ba8f..1af0b69 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -572,7 +572,7 @@ func runCommandWithWriters(ctx context.Context, shell, shellArg, command string,
 	defer stop()
 
 	err := cmd.Wait()
-	if err != nil && ctx.Err() != nil {
+	if ctx.Err() != nil {
 		return ctx.Err()
 	}
 	return err
-- 
2.43.0


From 8375be026a80ca07da362203d29dd30fb3bee1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 24/44] fix: stop waiting for detached children of a cancelled
 command

---
 internal/runner/runner.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 1af0b69..691242b 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"strings"
+	"time"
 
 	"github.com/bab-sh/bab/internal/babfile"
 	"github.com/bab-sh/bab/internal/condition"
@@ -22,6 +23,9 @@ import (
 	"golang.org/x/term"
 )
 
+// cancelGrace is how long a cancelled command's output is still waited for.
+const cancelGrace = 2 * time.Second
+
 type status int
 
 const (
@@ -571,7 +575,19 @@ func runCommandWithWriters(ctx context.Context, shell, shellArg, command string,
 	stop := context.AfterFunc(ctx, func() { _ = signalProcessGroup(cmd) })
 	defer stop()
 
-	err := cmd.Wait()
+	waited := make(chan error, 1)
+	go func() { waited <- cmd.Wait() }()
+
+	var err error
+	select {
+	case err = <-waited:
+	case <-ctx.Done():
+		// A child that left the process group may hold the output open for good.
+		select {
+		case err = <-waited:
+		case <-time.After(cancelGrace):
+		}
+	}
 	if ctx.Err() != nil {
 		return ctx.Err()
 	}
-- 
2.43.0


From a19a08beead4b15508d3a36f3803662c54bfe5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 25/44] fix: check a number prompt's default like any other
 answer

---
 internal/tui/prompt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index f2d3160..6a5c03d 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -274,9 +274,9 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		Value(&result).
 		Validate(func(s string) error {
 			if s == "" {
-				if p.Default != "" {
-					return nil
-				}
+				s = p.Default
+			}
+			if s == "" {
 				return errors.New("a number is required")
 			}
 			n, err := strconv.Atoi(s)
-- 
2.43.0


From 06aa04323766cdb391e1eb74e680599356db4b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 26/44] fix: keep passwords out of the verbose log

---
 internal/runner/runner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 691242b..5f807ef 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -261,7 +261,11 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 					return fmt.Errorf("task %q: prompt %q: %w", task.Name, v.Prompt, err)
 				}
 				taskVars[v.Prompt] = result
-				log.Debug("Prompt result stored", "var", v.Prompt, "value", result)
+				shown := result
+				if v.Type == babfile.PromptTypePassword {
+					shown = "***"
+				}
+				log.Debug("Prompt result stored", "var", v.Prompt, "value", shown)
 			}
 
 		case babfile.ParallelRun:
-- 
2.43.0


From bc00d39bcc80a7a76ecd488aa9646a07a8ca0be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 27/44] fix: keep keys pressed after a prompt's answer from
 changing it

---
 internal/tui/prompt.go | 53 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 6a5c03d..a4c3c18 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -95,7 +95,58 @@ func normalizeConfirmDefault(s string) string {
 // second handler could wait forever for a form that has already ended.
 func newForm(field huh.Field) *huh.Form {
 	return huh.NewForm(huh.NewGroup(field)).
-		WithProgramOptions(tea.WithOutput(os.Stderr), tea.WithoutSignalHandler())
+		WithProgramOptions(tea.WithOutput(os.Stderr), tea.WithoutSignalHandler(), tea.WithFilter(keyFilter(field)))
+}
+
+// keyFilter drops the key presses a form cannot handle well: those that follow
+// an accepted answer, which the form would still apply to the field, and those
+// that move the cursor while a filter leaves no option to move it to.
+func keyFilter(field huh.Field) func(tea.Model, tea.Msg) tea.Msg {
+	list, isList := field.(interface {
+		Hovered() (string, bool)
+		GetFiltering() bool
+	})
+	_, isMultiselect := field.(*huh.MultiSelect[string])
+	_, isConfirm := field.(*huh.Confirm)
+
+	submitted := false // whether the last key pressed asked to submit the answer
+
+	return func(_ tea.Model, msg tea.Msg) tea.Msg {
+		keyMsg, isKey := msg.(tea.KeyPressMsg)
+		if !isKey {
+			if _, isPaste := msg.(tea.PasteMsg); !isPaste {
+				return msg
+			}
+		}
+
+		pressed := keyMsg.String()
+		if pressed == "ctrl+c" {
+			return msg
+		}
+		if submitted && field.Error() == nil {
+			return nil
+		}
+
+		hasOption := true
+		if isList {
+			_, hasOption = list.Hovered()
+		}
+
+		switch pressed {
+		case "enter":
+			submitted = hasOption && (!isMultiselect || !list.GetFiltering())
+		case "y", "Y", "n", "N":
+			submitted = isConfirm
+		case "up", "down", "ctrl+p", "ctrl+n", "ctrl+k", "ctrl+j", "ctrl+d":
+			submitted = false
+			if !hasOption {
+				return nil
+			}
+		default:
+			submitted = false
+		}
+		return msg
+	}
 }
 
 func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (string, error) {
-- 
2.43.0


From 9a3e1ddf6aae693ce280a7b017fd4f368cb82ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 28/44] fix: keep ended TUI programs from taking keys

---
 internal/tui/input.go    | 35 +++++++++++++++++++++++++++++++++++
 internal/tui/parallel.go |  4 +++-
 internal/tui/prompt.go   | 31 ++++++++++++++-----------------
 internal/tui/tui.go      |  5 ++++-
 4 files changed, 56 insertions(+), 19 deletions(-)
 create mode 100644 internal/tui/input.go

diff --git a/internal/tui/input.go b/internal/tui/input.go
new file mode 100644
index 0000000..0602f83
--- /dev/null
+++ b/internal/tui/input.go
@@ -0,0 +1,35 @@
+package tui
+
+import (
+	"io"
+	"os"
+	"sync/atomic"
+
+	tea "charm.land/bubbletea/v2"
+	"golang.org/x/term"
+)
+
+// keyInput is standard input for one program. A program's reader can outlive
+// the program until the next key is pressed: it must not take that key.
+type keyInput struct {
+	*os.File
+
+	ended atomic.Bool
+}
+
+func (in *keyInput) Read(b []byte) (int, error) {
+	if in.ended.Load() {
+		return 0, io.EOF
+	}
+	return in.File.Read(b)
+}
+
+// withKeyInput returns the option that lets a program read the terminal and a
+// function to call when the program has ended.
+func withKeyInput() (option tea.ProgramOption, end func()) {
+	if !term.IsTerminal(int(os.Stdin.Fd())) {
+		return func(*tea.Program) {}, func() {}
+	}
+	in := &keyInput{File: os.Stdin}
+	return tea.WithInput(in), func() { in.ended.Store(true) }
+}
diff --git a/internal/tui/parallel.go b/internal/tui/parallel.go
index 8a4d3b9..3c5c4f6 100644
--- a/internal/tui/parallel.go
+++ b/internal/tui/parallel.go
@@ -46,8 +46,10 @@ type ItemClearChildrenMsg struct {
 type AllDoneMsg struct{}
 
 func RunParallel(model tea.Model) (*tea.Program, error) {
-	program := tea.NewProgram(model, tea.WithOutput(os.Stderr), tea.WithoutSignalHandler())
+	input, end := withKeyInput()
+	program := tea.NewProgram(model, input, tea.WithOutput(os.Stderr), tea.WithoutSignalHandler())
 	go func() {
+		defer end()
 		_, _ = program.Run()
 	}()
 	return program, nil
diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index a4c3c18..302dce2 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -91,11 +91,15 @@ func normalizeConfirmDefault(s string) string {
 	}
 }
 
-// newForm makes a form for one field. Signals end it through the context: a
+// runForm runs a form with one field. Signals end it through the context: a
 // second handler could wait forever for a form that has already ended.
-func newForm(field huh.Field) *huh.Form {
+func runForm(ctx context.Context, field huh.Field) error {
+	input, end := withKeyInput()
+	defer end()
+
 	return huh.NewForm(huh.NewGroup(field)).
-		WithProgramOptions(tea.WithOutput(os.Stderr), tea.WithoutSignalHandler(), tea.WithFilter(keyFilter(field)))
+		WithProgramOptions(input, tea.WithOutput(os.Stderr), tea.WithoutSignalHandler(), tea.WithFilter(keyFilter(field))).
+		RunWithContext(ctx)
 }
 
 // keyFilter drops the key presses a form cannot handle well: those that follow
@@ -160,8 +164,7 @@ func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (strin
 		Title(message).
 		Value(&result)
 
-	form := newForm(confirm)
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, confirm); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -195,8 +198,7 @@ func runInput(ctx context.Context, p babfile.PromptRun, message string) (string,
 		})
 	}
 
-	form := newForm(input)
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, input); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -222,8 +224,7 @@ func runSelect(ctx context.Context, p babfile.PromptRun, message string) (string
 		Options(options...).
 		Value(&result)
 
-	form := newForm(sel)
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, sel); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -262,8 +263,7 @@ func runMultiselect(ctx context.Context, p babfile.PromptRun, message string) (s
 		})
 	}
 
-	form := newForm(multi)
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, multi); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -281,8 +281,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 		EchoMode(huh.EchoModePassword).
 		Value(&result)
 
-	form := newForm(pw)
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, pw); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
@@ -302,8 +301,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 				return nil
 			})
 
-		confirmForm := newForm(confirmPw)
-		if err := confirmForm.RunWithContext(ctx); err != nil {
+		if err := runForm(ctx, confirmPw); err != nil {
 			if errors.Is(err, huh.ErrUserAborted) {
 				return "", ErrPromptCancelled
 			}
@@ -347,8 +345,7 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		input.Placeholder(p.Placeholder)
 	}
 
-	form := newForm(input)
-	if err := form.RunWithContext(ctx); err != nil {
+	if err := runForm(ctx, input); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
 		}
diff --git a/internal/tui/tui.go b/internal/tui/tui.go
index de9d1f1..aff80b4 100644
--- a/internal/tui/tui.go
+++ b/internal/tui/tui.go
@@ -16,7 +16,10 @@ func PickTask(ctx context.Context, tasks babfile.TaskMap) (*babfile.Task, error)
 		return nil, errs.ErrNoTasks
 	}
 
-	result, err := tea.NewProgram(picker.New(tasks), tea.WithContext(ctx), tea.WithoutSignalHandler()).Run()
+	input, end := withKeyInput()
+	defer end()
+
+	result, err := tea.NewProgram(picker.New(tasks), input, tea.WithContext(ctx), tea.WithoutSignalHandler()).Run()
 	if err != nil {
 		if errors.Is(err, tea.ErrProgramKilled) {
 			return nil, context.Canceled
-- 
2.43.0


From b873be796c43214bd4e0ff7d8078ca2f7d5e9da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 29/44] fix: reject lists and mappings where a Babfile needs a
 string

---
 internal/parser/unmarshal.go | 76 ++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index a776423..c63c71c 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -137,6 +137,16 @@ func parseBool(path string, node *yaml.Node, target **bool, verrs *errs.Validati
 	return true
 }
 
+func parseString(path string, node *yaml.Node, prefix, key string, target *string, verrs *errs.ValidationErrors) bool {
+	if node.Kind != yaml.ScalarNode {
+		verrs.Add(&errs.ParseError{Path: path, Line: node.Line, Message: fmt.Sprintf("%s: %s must be a string", prefix, key)})
+		return false
+	}
+
+	*target = node.Value
+	return true
+}
+
 // resolveYAMLAliases replaces every alias node below node with the node it
 // refers to. inProgress maps a visited node to whether it is still being walked.
 func resolveYAMLAliases(path string, node *yaml.Node, inProgress map[*yaml.Node]bool) error {
@@ -261,6 +271,7 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 	}
 
 	task := babfile.Task{}
+	prefix := fmt.Sprintf("task %q", taskName)
 	hasErrors := false
 
 	for i := 0; i < len(node.Content); i += 2 {
@@ -269,9 +280,13 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 
 		switch key.Value {
 		case keyDesc:
-			task.Desc = val.Value
+			if !parseString(path, val, prefix, key.Value, &task.Desc, verrs) {
+				hasErrors = true
+			}
 		case keyAlias:
-			task.Alias = val.Value
+			if !parseString(path, val, prefix, key.Value, &task.Alias, verrs) {
+				hasErrors = true
+			}
 		case keyAliases:
 			if err := val.Decode(&task.Aliases); err != nil {
 				verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: invalid aliases", taskName), Cause: err})
@@ -294,14 +309,13 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 				hasErrors = true
 			}
 		case keyDir:
-			if val.Kind != yaml.ScalarNode {
-				verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("task %q: dir must be a string", taskName)})
+			if !parseString(path, val, prefix, key.Value, &task.Dir, verrs) {
 				hasErrors = true
-			} else {
-				task.Dir = val.Value
 			}
 		case keyWhen:
-			task.When = val.Value
+			if !parseString(path, val, prefix, key.Value, &task.When, verrs) {
+				hasErrors = true
+			}
 		case keyDeps:
 			task.DepsLine = key.Line
 			if err := val.Decode(&task.Deps); err != nil {
@@ -342,19 +356,21 @@ func parseRunItems(path string, node *yaml.Node, taskName string, verrs *errs.Va
 }
 
 func parsePromptKey(key, val *yaml.Node, pf *promptFields, path, taskName string, index int, verrs *errs.ValidationErrors) bool {
+	prefix := fmt.Sprintf("task %q: run[%d]", taskName, index)
+
 	switch key.Value {
 	case keyPrompt:
-		pf.name = val.Value
+		return parseString(path, val, prefix, key.Value, &pf.name, verrs)
 	case keyType:
-		pf.promptType = val.Value
+		return parseString(path, val, prefix, key.Value, &pf.promptType, verrs)
 	case keyMessage:
-		pf.message = val.Value
+		return parseString(path, val, prefix, key.Value, &pf.message, verrs)
 	case keyDefault:
-		pf.dflt = val.Value
+		return parseString(path, val, prefix, key.Value, &pf.dflt, verrs)
 	case keyPlaceholder:
-		pf.placeholder = val.Value
+		return parseString(path, val, prefix, key.Value, &pf.placeholder, verrs)
 	case keyValidate:
-		pf.validate = val.Value
+		return parseString(path, val, prefix, key.Value, &pf.validate, verrs)
 	case keyOptions:
 		if err := val.Decode(&pf.options); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid options", taskName, index), Cause: err})
@@ -455,6 +471,7 @@ type runFields struct {
 
 func parseRunFields(path string, node *yaml.Node, taskName string, index int, verrs *errs.ValidationErrors) runFields {
 	rf := runFields{line: node.Line}
+	prefix := fmt.Sprintf("task %q: run[%d]", taskName, index)
 
 	for i := 0; i < len(node.Content); i += 2 {
 		key := node.Content[i]
@@ -462,22 +479,29 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 
 		switch key.Value {
 		case keyCmd:
-			rf.cmd = val.Value
+			if !parseString(path, val, prefix, key.Value, &rf.cmd, verrs) {
+				rf.hasErrors = true
+			}
 		case keyDir:
-			if val.Kind != yaml.ScalarNode {
-				verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("task %q: run[%d]: dir must be a string", taskName, index)})
+			if !parseString(path, val, prefix, key.Value, &rf.dir, verrs) {
 				rf.hasErrors = true
-			} else {
-				rf.dir = val.Value
 			}
 		case keyWhen:
-			rf.when = val.Value
+			if !parseString(path, val, prefix, key.Value, &rf.when, verrs) {
+				rf.hasErrors = true
+			}
 		case keyTask:
-			rf.task = val.Value
+			if !parseString(path, val, prefix, key.Value, &rf.task, verrs) {
+				rf.hasErrors = true
+			}
 		case keyLog:
-			rf.log = val.Value
+			if !parseString(path, val, prefix, key.Value, &rf.log, verrs) {
+				rf.hasErrors = true
+			}
 		case keyLevel:
-			rf.level = babfile.LogLevel(val.Value)
+			if !parseString(path, val, prefix, key.Value, (*string)(&rf.level), verrs) {
+				rf.hasErrors = true
+			}
 		case keyEnv:
 			if !parseEnvMap(path, val, &rf.env, verrs) {
 				rf.hasErrors = true
@@ -492,11 +516,15 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 			}
 		case keyPlatforms:
 			var ok bool
-			rf.platforms, ok = parsePlatforms(path, key.Line, fmt.Sprintf("task %q: run[%d]", taskName, index), val, verrs)
+			rf.platforms, ok = parsePlatforms(path, key.Line, prefix, val, verrs)
 			if !ok {
 				rf.hasErrors = true
 			}
 		case keyLabel:
+			var label string // belongs to the parallel block
+			if !parseString(path, val, prefix, key.Value, &label, verrs) {
+				rf.hasErrors = true
+			}
 		default:
 			if !parsePromptKey(key, val, &rf.pf, path, taskName, index, verrs) {
 				rf.hasErrors = true
@@ -558,7 +586,7 @@ func parseParallelKey(key, val *yaml.Node, pf *parallelFields, path, prefix stri
 		pf.platforms, ok = parsePlatforms(path, key.Line, prefix, val, verrs)
 		return ok
 	case keyWhen:
-		pf.when = val.Value
+		return parseString(path, val, prefix, key.Value, &pf.when, verrs)
 	default:
 		verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("%s: unknown key %q in parallel block", prefix, key.Value)})
 		return false
-- 
2.43.0


From 182b4be3415130d182066d7d1a87050591b3de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 30/44] fix: reject fractions where a Babfile needs an integer

---
 internal/parser/unmarshal.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index c63c71c..1978e01 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -147,6 +147,22 @@ func parseString(path string, node *yaml.Node, prefix, key string, target *strin
 	return true
 }
 
+// decodeInt decodes an integer. Unlike Decode it does not round fractions.
+func decodeInt(node *yaml.Node, target *int) error {
+	if err := node.Decode(target); err != nil {
+		return err
+	}
+
+	var exact float64
+	if err := node.Decode(&exact); err != nil {
+		return err
+	}
+	if exact != float64(*target) {
+		return fmt.Errorf("%s is not an integer", node.Value)
+	}
+	return nil
+}
+
 // resolveYAMLAliases replaces every alias node below node with the node it
 // refers to. inProgress maps a visited node to whether it is still being walked.
 func resolveYAMLAliases(path string, node *yaml.Node, inProgress map[*yaml.Node]bool) error {
@@ -383,14 +399,14 @@ func parsePromptKey(key, val *yaml.Node, pf *promptFields, path, taskName string
 		}
 	case keyMin:
 		var v int
-		if err := val.Decode(&v); err != nil {
+		if err := decodeInt(val, &v); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid min value", taskName, index), Cause: err})
 			return false
 		}
 		pf.min = &v
 	case keyMax:
 		var v int
-		if err := val.Decode(&v); err != nil {
+		if err := decodeInt(val, &v); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid max value", taskName, index), Cause: err})
 			return false
 		}
@@ -566,7 +582,7 @@ func parseParallelKey(key, val *yaml.Node, pf *parallelFields, path, prefix stri
 		}
 	case keyLimit:
 		var v int
-		if err := val.Decode(&v); err != nil {
+		if err := decodeInt(val, &v); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("%s: invalid limit value", prefix), Cause: err})
 			return false
 		}
-- 
2.43.0


From 1dca339edc9ed82b19ed72fa20df141297173474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 31/44] fix: skip directories when looking for a Babfile

---
 internal/finder/finder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/finder/finder.go b/internal/finder/finder.go
index 149613e..83dbc57 100644
--- a/internal/finder/finder.go
+++ b/internal/finder/finder.go
@@ -27,7 +27,7 @@ func FindBabfile() (string, error) {
 	for {
 		for _, filename := range babfileNames {
 			path := filepath.Join(currentDir, filename)
-			if _, err := os.Stat(path); err == nil {
+			if info, err := os.Stat(path); err == nil && !info.IsDir() {
 				log.Debug("Found Babfile", "path", path)
 				return path, nil
 			}
-- 
2.43.0


From 331932dc59ae6dc0f6568e7476d5b4abdaaeb88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 32/44] fix: let the schema accept integer defaults as
 documented

---
 internal/babfile/run_prompt.go | 1 +
 schema/babfile.schema.json     | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/internal/babfile/run_prompt.go b/internal/babfile/run_prompt.go
index 669f4f4..64ed5ca 100644
--- a/internal/babfile/run_prompt.go
+++ b/internal/babfile/run_prompt.go
@@ -104,6 +104,7 @@ func PromptRunSchema() *jsonschema.Schema {
 		OneOf: []*jsonschema.Schema{
 			{Type: "string"},
 			{Type: "boolean"},
+			{Type: "integer"},
 		},
 		Description: "Default value for the prompt",
 	})
diff --git a/schema/babfile.schema.json b/schema/babfile.schema.json
index 567cea9..cd3ac00 100644
--- a/schema/babfile.schema.json
+++ b/schema/babfile.schema.json
@@ -329,6 +329,9 @@
                 },
                 {
                   "type": "boolean"
+                },
+                {
+                  "type": "integer"
                 }
               ],
               "description": "Default value for the prompt"
-- 
2.43.0


From 9e0d9aabc07a3065f3005fd497062af92e9d526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 33/44] fix: quote commands in the documentation that are not
 valid YAML

---
 docs/content/guide/babfile-syntax.md | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/content/guide/babfile-syntax.md b/docs/content/guide/babfile-syntax.md
index 6b272b0..f5a48b8 100644
--- a/docs/content/guide/babfile-syntax.md
+++ b/docs/content/guide/babfile-syntax.md
@@ -645,7 +645,7 @@ tasks:
           - staging
           - prod
         default: dev
-      - cmd: echo "Selected: ${{ environment }}"
+      - cmd: 'echo "Selected: ${{ environment }}"'
 ```
 
 #### Multiselect (Multiple Choices)
@@ -665,7 +665,7 @@ tasks:
         defaults: [auth, api]
         min: 1
         max: 3
-      - cmd: echo "Installing: ${{ features }}"
+      - cmd: 'echo "Installing: ${{ features }}"'
 ```
 
 Result stored as comma-separated string: `"auth,api,ui"`
-- 
2.43.0


From 0f5e0c1381770750a3ecac361f71a24bc3d58e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 34/44] fix: rank the task with the typed alias first in the
 picker

---
 internal/tui/picker/match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tui/picker/match.go b/internal/tui/picker/match.go
index 560e01e..f21c8c1 100644
--- a/internal/tui/picker/match.go
+++ b/internal/tui/picker/match.go
@@ -1,6 +1,7 @@
 package picker
 
 import (
+	"math"
 	"sort"
 	"strings"
 
@@ -10,7 +11,7 @@ import (
 )
 
 const (
-	scoreExactAlias = 1000
+	scoreExactAlias = math.MaxInt
 	scoreFuzzyAlias = 500
 )
 
-- 
2.43.0


From 9674f12df5e63d1eee8e6bda66972303505692b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 35/44] fix: show multi-line task descriptions on one line in
 the picker

---
 internal/tui/picker/view.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tui/picker/view.go b/internal/tui/picker/view.go
index 2e7ab40..efbd576 100644
--- a/internal/tui/picker/view.go
+++ b/internal/tui/picker/view.go
@@ -73,8 +73,8 @@ func (m Model) renderLine(i int) string {
 		}
 	}
 
-	if match.Task.Desc != "" {
-		b.WriteString("  " + descStyle.Render(match.Task.Desc))
+	if desc := strings.Join(strings.Fields(match.Task.Desc), " "); desc != "" {
+		b.WriteString("  " + descStyle.Render(desc))
 	}
 	return b.String()
 }
-- 
2.43.0


From 03bcdd6aef444fd93ee2aa88412faf2874ac669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 36/44] fix: do not crash in the picker on task names and
 aliases with NUL characters

---
 internal/tui/picker/match.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/tui/picker/match.go b/internal/tui/picker/match.go
index f21c8c1..7f85dfb 100644
--- a/internal/tui/picker/match.go
+++ b/internal/tui/picker/match.go
@@ -38,7 +38,7 @@ func search(query string, tasks []*babfile.Task) []Match {
 	}
 	nameMatchMap := make(map[int][]int)
 	nameScoreMap := make(map[int]int)
-	for _, m := range fuzzy.Find(query, names) {
+	for _, m := range fuzzy.Find(query, withoutNUL(names)) {
 		nameMatchMap[m.Index] = m.MatchedIndexes
 		nameScoreMap[m.Index] = m.Score
 	}
@@ -101,7 +101,7 @@ func searchAliases(query string, task *babfile.Task) (alias string, indexes []in
 		}
 	}
 
-	matches := fuzzy.Find(query, aliases)
+	matches := fuzzy.Find(query, withoutNUL(aliases))
 	if len(matches) > 0 {
 		best := matches[0]
 		return aliases[best.Index], best.MatchedIndexes, false
@@ -110,6 +110,15 @@ func searchAliases(query string, task *babfile.Task) (alias string, indexes []in
 	return "", nil, false
 }
 
+// fuzzy.Find takes a NUL for the end of the string and panics on what follows it.
+func withoutNUL(list []string) []string {
+	out := make([]string, len(list))
+	for i, s := range list {
+		out[i] = strings.ReplaceAll(s, "\x00", " ")
+	}
+	return out
+}
+
 func highlight(text string, indexes []int, base, hl lipgloss.Style) string {
 	if len(indexes) == 0 {
 		return base.Render(text)
-- 
2.43.0


From 38cdf48a2f9ed250284d3293a24de4ffd3e14dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 37/44] fix: verify the checksum with openssl in the installer

---
 install.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install.sh b/install.sh
index fe7dd81..2d8e4b7 100755
--- a/install.sh
+++ b/install.sh
@@ -316,7 +316,7 @@ hash_sha256() {
     echo "$hash" | cut -d ' ' -f 1
   elif is_command openssl; then
     hash=$(openssl dgst -sha256 "$TARGET") || return 1
-    echo "$hash" | cut -d ' ' -f a
+    echo "$hash" | sed 's/.* //'
   else
     log_crit "hash_sha256 unable to find command to compute sha-256 hash"
     return 1
-- 
2.43.0


From 9e7b292b6d90f25aeb9e0dc8b919f6781c651c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 38/44] fix: match the archive's exact name in the installer's
 checksum list

---
 install.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install.sh b/install.sh
index 2d8e4b7..6dbf43c 100755
--- a/install.sh
+++ b/install.sh
@@ -331,7 +331,7 @@ hash_sha256_verify() {
     return 1
   fi
   BASENAME=${TARGET##*/}
-  want=$(grep "${BASENAME}" "${checksums}" 2>/dev/null | tr '\t' ' ' | cut -d ' ' -f 1)
+  want=$(awk -v name="${BASENAME}" '$2 == name || $2 == "*" name { print $1; exit }' "${checksums}" 2>/dev/null || true)
   if [ -z "$want" ]; then
     log_err "hash_sha256_verify unable to find checksum for '${TARGET}' in '${checksums}'"
     return 1
-- 
2.43.0


From ab193e6364c4d96842c617eec16c9d7bc11d412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 39/44] fix: give up the installation when curl breaks off
 reading the release

---
 install.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/install.sh b/install.sh
index 6dbf43c..24e3d4d 100755
--- a/install.sh
+++ b/install.sh
@@ -248,9 +248,9 @@ http_download_curl() {
   source_url=$2
   header=$3
   if [ -z "$header" ]; then
-    code=$(curl -w '%{http_code}' -sL -o "$local_file" "$source_url")
+    code=$(curl -w '%{http_code}' -sL -o "$local_file" "$source_url") || return 1
   else
-    code=$(curl -w '%{http_code}' -sL -H "$header" -o "$local_file" "$source_url")
+    code=$(curl -w '%{http_code}' -sL -H "$header" -o "$local_file" "$source_url") || return 1
   fi
   if [ "$code" != "200" ]; then
     log_err "http_download_curl received HTTP status $code"
-- 
2.43.0


From 7073d893fd50d264b232c29fa03e064c7c1d9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:20 +0000
Subject: [PATCH 40/44] fix: show all options of a multiselect prompt

---
 internal/tui/prompt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 302dce2..11470af 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -12,6 +12,7 @@ import (
 
 	tea "charm.land/bubbletea/v2"
 	"charm.land/huh/v2"
+	"charm.land/lipgloss/v2"
 	"github.com/bab-sh/bab/internal/babfile"
 	"golang.org/x/term"
 )
@@ -246,9 +247,11 @@ func runMultiselect(ctx context.Context, p babfile.PromptRun, message string) (s
 		options[i] = huh.NewOption(opt, opt).Selected(slices.Contains(p.Defaults, opt))
 	}
 
+	// without a height the list would be shown one option short
 	multi := huh.NewMultiSelect[string]().
 		Title(message).
 		Options(options...).
+		Height(len(options) + lipgloss.Height(message)).
 		Value(&result)
 
 	if p.Min != nil || p.Max != nil {
-- 
2.43.0


From 7498b81f00829a0a2309f917d5df4ca637db75c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:29 +0000
Subject: [PATCH 41/44] fix: keep a line of a parallel block that ends in
 several carriage returns

Output that went through a terminal twice ends its lines in \r\r\n. Only one
carriage return was taken off, and the text before the next one was dropped.
---
 internal/runner/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index a14d673..f5c87ee 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -125,7 +125,7 @@ type lineBuffer struct {
 }
 
 func resolveCR(raw string) string {
-	raw = strings.TrimSuffix(raw, "\r")
+	raw = strings.TrimRight(raw, "\r")
 	if i := strings.LastIndexByte(raw, '\r'); i >= 0 {
 		return raw[i+1:]
 	}
-- 
2.43.0


From 38bc05eab69a6f2fbec9bbb84141de5a105cecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:33 +0000
Subject: [PATCH 42/44] fix: hide debug messages of parallel items without
 --verbose

Outside parallel blocks a log item of level debug shows only with --verbose;
within one it was always shown.
---
 internal/runner/parallel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 7ca937e..49634c3 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -391,7 +391,9 @@ func (r *Runner) executeRunItem(ctx context.Context, item babfile.RunItem, task
 		case r.DryRun:
 			log.Info("Would log", "msg", interpolatedLog, "level", v.Level)
 		case stdout != nil:
-			_, _ = fmt.Fprintln(stdout, output.RenderLog(interpolatedLog, v.Level))
+			if v.Level != babfile.LogLevelDebug || log.GetLevel() <= log.DebugLevel {
+				_, _ = fmt.Fprintln(stdout, output.RenderLog(interpolatedLog, v.Level))
+			}
 		default:
 			executeLog(babfile.LogRun{Log: interpolatedLog, Level: v.Level})
 		}
-- 
2.43.0


From 51a37b797c0ee2e761941fcc2e88cc8f4e2deb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:28 +0000
Subject: [PATCH 43/44] fix: limit the number of files a Babfile may include

---
 internal/parser/include.go |  4 ++--
 internal/parser/parser.go  | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index 53dfeff..3ae4391 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -8,7 +8,7 @@ import (
 	"github.com/charmbracelet/log"
 )
 
-func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMap, visited map[string]bool) error {
+func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMap, visited map[string]bool, files *int) error {
 	incPath := babfilePath
 	if !filepath.IsAbs(incPath) {
 		incPath = filepath.Join(baseDir, incPath)
@@ -17,7 +17,7 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 
 	log.Debug("Resolving include", "namespace", namespace, "path", incPath)
 
-	result, err := parseFile(incPath, visited)
+	result, err := parseFile(incPath, visited, files)
 	if err != nil {
 		return err
 	}
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index d8355de..ed11fa4 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"errors"
+	"fmt"
 	"os"
 	"path/filepath"
 	"slices"
@@ -12,6 +13,10 @@ import (
 	"github.com/charmbracelet/log"
 )
 
+// maxFiles is how many files a Babfile may lead to. Files that include others
+// several times multiply, so that a few small ones could keep bab busy for good.
+const maxFiles = 1000
+
 type ParseResult struct {
 	Path         string
 	GlobalVars   babfile.VarMap
@@ -34,7 +39,7 @@ func Parse(path string) (*ParseResult, error) {
 	}
 
 	visited := make(map[string]bool)
-	result, err := parseFile(absPath, visited)
+	result, err := parseFile(absPath, visited, new(int))
 	if err != nil {
 		return nil, err
 	}
@@ -46,7 +51,7 @@ func Parse(path string) (*ParseResult, error) {
 	return result, nil
 }
 
-func parseFile(absPath string, visited map[string]bool) (*ParseResult, error) {
+func parseFile(absPath string, visited map[string]bool, files *int) (*ParseResult, error) {
 	log.Debug("Parsing babfile", "path", absPath)
 
 	if visited[absPath] {
@@ -56,6 +61,11 @@ func parseFile(absPath string, visited map[string]bool) (*ParseResult, error) {
 	visited[absPath] = true
 	defer delete(visited, absPath)
 
+	*files++
+	if *files > maxFiles {
+		return nil, &errs.ParseError{Path: absPath, Message: fmt.Sprintf("more than %d files included", maxFiles)}
+	}
+
 	data, err := os.ReadFile(absPath)
 	if err != nil {
 		return nil, &errs.ParseError{Path: absPath, Message: "file not found", Cause: err}
@@ -95,7 +105,7 @@ func parseFile(absPath string, visited map[string]bool) (*ParseResult, error) {
 
 	baseDir := filepath.Dir(absPath)
 	for namespace, inc := range bf.Includes {
-		if err := resolveInclude(namespace, inc.Babfile, baseDir, tasks, visited); err != nil {
+		if err := resolveInclude(namespace, inc.Babfile, baseDir, tasks, visited, files); err != nil {
 			return nil, &errs.ParseError{Path: absPath, Message: "include " + namespace + " failed", Cause: err}
 		}
 	}
-- 
2.43.0


From 8f90cfa722e4d1d535ac8e9eec53a994edcc9297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:26 +0000
Subject: [PATCH 44/44] fix: limit the length of texts that variables multiply

---
 internal/interpolate/interpolate.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index 3ab677f..dfb451c 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -19,6 +19,10 @@ type Context struct {
 	Line int
 }
 
+// maxInserted is how many bytes of values one text may take in. Variables that
+// refer to others several times multiply, and would use up all memory.
+const maxInserted = 1 << 20
+
 func NewContext(vars map[string]string) *Context {
 	if vars == nil {
 		vars = make(map[string]string)
@@ -38,7 +42,8 @@ func Interpolate(input string, ctx *Context) (string, error) {
 		ctx = NewContext(nil)
 	}
 
-	var errs []error
+	var problems []error
+	inserted := 0
 
 	result := EscapePattern.ReplaceAllString(input, escapePlaceholder)
 
@@ -50,8 +55,14 @@ func Interpolate(input string, ctx *Context) (string, error) {
 		name := submatch[1]
 
 		value, err := resolveVar(name, ctx)
+		if err == nil {
+			inserted += len(value)
+			if inserted > maxInserted {
+				err = &errs.ParseError{Path: ctx.Path, Line: ctx.Line, Message: "text too long after inserting " + name}
+			}
+		}
 		if err != nil {
-			errs = append(errs, err)
+			problems = append(problems, err)
 			return match
 		}
 		return value
@@ -59,8 +70,8 @@ func Interpolate(input string, ctx *Context) (string, error) {
 
 	result = strings.ReplaceAll(result, escapePlaceholder, "${{")
 
-	if len(errs) > 0 {
-		return result, errs[0]
+	if len(problems) > 0 {
+		return result, problems[0]
 	}
 	return result, nil
 }
-- 
2.43.0

