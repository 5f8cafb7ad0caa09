From 970558c19f09cf865fde3d13d909d9a508369e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 01/20] fix: apply platforms and when to items inside a
 parallel block

---
 internal/runner/parallel.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 6c95998..9c4ba93 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"runtime"
 	"strconv"
 	"strings"
 	"sync"
@@ -69,14 +70,32 @@ func (s *syncState) snapshot() map[string]status {
 }
 
 func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, parentNoColor bool, pctx *ParallelContext) error {
-	labels := make([]string, len(pr.Items))
+	items := make([]babfile.RunItem, 0, len(pr.Items))
+	labels := make([]string, 0, len(pr.Items))
 	maxLabelLen := 0
-	for i := range pr.Items {
-		labels[i] = pr.ItemLabel(i)
-		if len(labels[i]) > maxLabelLen {
-			maxLabelLen = len(labels[i])
+	for i, item := range pr.Items {
+		if !item.ShouldRunOnPlatform(runtime.GOOS) {
+			log.Debug("Skipping parallel item", "task", task.Name, "index", i+1, "reason", "platform")
+			continue
+		}
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+			return err
+		} else if shouldSkip {
+			continue
 		}
+
+		items = append(items, item)
+		label := pr.ItemLabel(i)
+		labels = append(labels, label)
+		if len(label) > maxLabelLen {
+			maxLabelLen = len(label)
+		}
+	}
+	if len(items) == 0 {
+		log.Debug("All parallel items skipped", "task", task.Name)
+		return nil
 	}
+	pr.Items = items
 
 	noColor := parentNoColor || !pr.UseColor()
 
-- 
2.43.0


From 37776e7acbee2951365ac57953c26380545852f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 02/20] fix: keep silent and output of included parallel blocks

---
 internal/parser/include.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index 1a8ae84..fdbf31c 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -124,6 +124,8 @@ func prefixTaskRuns(items []babfile.RunItem, namespace string) []babfile.RunItem
 				Mode:      v.Mode,
 				Limit:     v.Limit,
 				Color:     v.Color,
+				Silent:    v.Silent,
+				Output:    v.Output,
 				Platforms: v.Platforms,
 				When:      v.When,
 			}
-- 
2.43.0


From aaeea5ce8b8578b60dbd1dae7ec0efdddd900cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 03/20] fix: interpolate task and global env values only once

---
 internal/runner/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 07f56da..63b3000 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -303,10 +303,11 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return err
 	}
 
-	cmdEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(taskEnv, v.Env), cmdCtx)
+	ownEnv, err := r.interpolateEnv(v.Env, cmdCtx)
 	if err != nil {
 		return err
 	}
+	cmdEnv := babfile.MergeEnvMaps(taskEnv, ownEnv)
 
 	cmdDir, err := r.resolveDir(task, v.Dir, cmdCtx)
 	if err != nil {
-- 
2.43.0


From 4029668c7de407c0211ada8d2f70fbb6205152b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 04/20] fix: never share the global variable map with a task

---
 internal/interpolate/interpolate.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index cd6369d..d4186b7 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -93,18 +93,15 @@ func ResolveVars(vars map[string]string, parentVars map[string]string) (map[stri
 }
 
 func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]string, path string, line int) (map[string]string, error) {
-	if vars == nil {
-		if parentVars == nil {
-			return make(map[string]string), nil
-		}
-		return parentVars, nil
-	}
-
 	resolved := make(map[string]string)
 	for k, v := range parentVars {
 		resolved[k] = v
 	}
 
+	if vars == nil {
+		return resolved, nil
+	}
+
 	resolving := make(map[string]bool)
 	resolvedSet := make(map[string]bool)
 	var resolvingStack []string
-- 
2.43.0


From 592eccc55da98af09ddc1cd778f8f248dafb504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 05/20] fix: keep prompt answers out of the debug log

---
 internal/runner/runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 63b3000..4cd4bc0 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -256,7 +256,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 					return fmt.Errorf("task %q: prompt %q: %w", task.Name, v.Prompt, err)
 				}
 				taskVars[v.Prompt] = result
-				log.Debug("Prompt result stored", "var", v.Prompt, "value", result)
+				log.Debug("Prompt result stored", "var", v.Prompt)
 			}
 
 		case babfile.ParallelRun:
-- 
2.43.0


From d08f9bdf3d19d090eb3f02b50b212401cef1412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 06/20] fix: report parallel items abandoned on cancellation as
 failed

---
 internal/runner/parallel.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 9c4ba93..ca76d67 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -161,6 +161,9 @@ func (r *Runner) executeParallelInterleaved(ctx context.Context, pr babfile.Para
 				select {
 				case sem <- struct{}{}:
 				case <-ctx.Done():
+					firstErrOnce.Do(func() {
+						firstErr = fmt.Errorf("parallel item %q failed: %w", labels[idx], ctx.Err())
+					})
 					return
 				}
 				defer func() { <-sem }()
@@ -259,6 +262,9 @@ func (r *Runner) executeParallelTUI(ctx context.Context, pr babfile.ParallelRun,
 				case sem <- struct{}{}:
 				case <-ctx.Done():
 					itemErrs[idx] = context.Canceled
+					firstErrOnce.Do(func() {
+						firstErr = fmt.Errorf("parallel item %q failed: %w", labels[idx], ctx.Err())
+					})
 
 					program.Send(tui.ItemDoneMsg{Key: childKey, Err: context.Canceled})
 					return
-- 
2.43.0


From 8eb565c58f9cf18e87f41f29c35a60613c159c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 07/20] fix: let dry-run preview items that use prompt
 variables

---
 internal/runner/runner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 4cd4bc0..eaab458 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -250,6 +250,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 
 			if r.DryRun {
 				log.Info("Would prompt", "var", interpolated.Prompt, "type", interpolated.Type, "message", interpolated.Message)
+				taskVars[v.Prompt] = "${{ " + v.Prompt + " }}"
 			} else {
 				result, err := tui.RunPrompt(ctx, interpolated, interpolated.Message)
 				if err != nil {
-- 
2.43.0


From 10f4bb09e93a80a0ae3e8b40397e49fed0c9cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 08/20] fix: ignore directories named like a Babfile during
 lookup

---
 internal/finder/finder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/finder/finder.go b/internal/finder/finder.go
index 149613e..83dbc57 100644
--- a/internal/finder/finder.go
+++ b/internal/finder/finder.go
@@ -27,7 +27,7 @@ func FindBabfile() (string, error) {
 	for {
 		for _, filename := range babfileNames {
 			path := filepath.Join(currentDir, filename)
-			if _, err := os.Stat(path); err == nil {
+			if info, err := os.Stat(path); err == nil && !info.IsDir() {
 				log.Debug("Found Babfile", "path", path)
 				return path, nil
 			}
-- 
2.43.0


From 1718fe32b0d4daf5a089ec3b52407f7e3110b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 09/20] fix: use the default when a number prompt is left empty

---
 internal/tui/prompt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 5fe1230..f241f99 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -287,5 +287,8 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		return "", err
 	}
 
+	if result == "" {
+		result = p.Default
+	}
 	return result, nil
 }
-- 
2.43.0


From eb370465db65d01670be7653ae9beec2855f5582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 10/20] fix: do not follow escaped references when resolving
 variables

---
 internal/interpolate/interpolate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index d4186b7..3ab677f 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -143,7 +143,7 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		resolving[name] = true
 		resolvingStack = append(resolvingStack, name)
 
-		matches := Pattern.FindAllStringSubmatch(raw, -1)
+		matches := Pattern.FindAllStringSubmatch(EscapePattern.ReplaceAllString(raw, escapePlaceholder), -1)
 		for _, match := range matches {
 			if len(match) < 2 {
 				continue
-- 
2.43.0


From 98ca919518a56c6ed3cebca05d36033fc1b6f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 11/20] fix: compare condition operands after splitting, so
 values cannot alter the comparison

---
 internal/condition/condition.go | 46 ++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/internal/condition/condition.go b/internal/condition/condition.go
index 713e2d6..dffaf44 100644
--- a/internal/condition/condition.go
+++ b/internal/condition/condition.go
@@ -23,38 +23,42 @@ func Evaluate(condition string, ctx *interpolate.Context) (Result, error) {
 		return Result{ShouldRun: true, Reason: "no condition"}, nil
 	}
 
+	if left, op, right, ok := splitComparison(strings.TrimSpace(condition)); ok {
+		leftValue, err := interpolate.Interpolate(left, ctx)
+		if err != nil {
+			return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
+		}
+		rightValue, err := interpolate.Interpolate(right, ctx)
+		if err != nil {
+			return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
+		}
+		return evaluateOp(strings.TrimSpace(leftValue), op, rightValue), nil
+	}
+
 	interpolated, err := interpolate.Interpolate(condition, ctx)
 	if err != nil {
 		return Result{ShouldRun: false}, fmt.Errorf("evaluating condition: %w", err)
 	}
 
-	interpolated = strings.TrimSpace(interpolated)
-
-	if result, ok := evaluateComparison(interpolated); ok {
-		return result, nil
-	}
-
 	return evaluateTruthy(interpolated), nil
 }
 
-func evaluateComparison(s string) (Result, bool) {
-	if matches := comparisonPatternSQ.FindStringSubmatch(s); len(matches) == 4 {
-		left := strings.TrimSpace(matches[1])
-		op := matches[2]
-		right := matches[3]
-		left = strings.Trim(left, "'\"")
-		return evaluateOp(left, op, right), true
+func splitComparison(s string) (left, op, right string, ok bool) {
+	for _, pattern := range []*regexp.Regexp{comparisonPatternSQ, comparisonPatternDQ} {
+		if matches := pattern.FindStringSubmatch(s); len(matches) == 4 {
+			left = strings.Trim(strings.TrimSpace(matches[1]), "'\"")
+			return left, matches[2], matches[3], true
+		}
 	}
+	return "", "", "", false
+}
 
-	if matches := comparisonPatternDQ.FindStringSubmatch(s); len(matches) == 4 {
-		left := strings.TrimSpace(matches[1])
-		op := matches[2]
-		right := matches[3]
-		left = strings.Trim(left, "'\"")
-		return evaluateOp(left, op, right), true
+func evaluateComparison(s string) (Result, bool) {
+	left, op, right, ok := splitComparison(s)
+	if !ok {
+		return Result{}, false
 	}
-
-	return Result{}, false
+	return evaluateOp(left, op, right), true
 }
 
 func evaluateOp(left, op, right string) Result {
-- 
2.43.0


From 0bcf3428d4f81f27d6f54a3d12164f7588eb11b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 12/20] fix: run included tasks in their own directory when the
 main file sets dir

---
 internal/parser/include.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index fdbf31c..d71de31 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -35,6 +35,9 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 		if taskDir == "" {
 			taskDir = result.GlobalDir
 		}
+		if taskDir == "" {
+			taskDir = "."
+		}
 
 		taskSilent := task.Silent
 		if taskSilent == nil {
-- 
2.43.0


From 5199418aa7a55ef27db8f412d777089bd82f77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 13/20] fix: evaluate a task condition with the task's own
 variables

---
 internal/runner/runner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index eaab458..0c163a9 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -156,7 +156,11 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 	}
 
 	if task.When != "" {
-		whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
+		whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+		if err != nil {
+			return err
+		}
+		whenCtx := interpolate.NewContextWithLocation(whenVars, r.BabfilePath, task.Line)
 		result, err := condition.Evaluate(task.When, whenCtx)
 		if err != nil {
 			return fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-- 
2.43.0


From d0afa60a77c37a3dfb366f4bb9aa5907c75abd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 14/20] fix: report diagnostics of included tasks against the
 file they come from

---
 internal/parser/validate.go | 15 +++++++++++----
 internal/runner/parallel.go |  4 ++--
 internal/runner/runner.go   | 29 ++++++++++++++++++-----------
 3 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 0076478..2952031 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -14,6 +14,13 @@ func validateAll(path string, tasks babfile.TaskMap) error {
 	return verrs.OrNil()
 }
 
+func taskPath(task *babfile.Task, path string) string {
+	if task.SourcePath != "" {
+		return task.SourcePath
+	}
+	return path
+}
+
 func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	type aliasInfo struct {
 		taskName string
@@ -29,7 +36,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 
 			if tasks.Has(alias) {
 				verrs.Add(&errs.AliasConflictError{
-					Path:     path,
+					Path:     taskPath(task, path),
 					Line:     task.Line,
 					Alias:    alias,
 					TaskName: name,
@@ -39,7 +46,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 
 			if existing, exists := aliasToTask[alias]; exists {
 				verrs.Add(&errs.DuplicateAliasError{
-					Path:         path,
+					Path:         taskPath(task, path),
 					Line:         task.Line,
 					Alias:        alias,
 					TaskName:     name,
@@ -63,7 +70,7 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 					line = task.Line
 				}
 				verrs.Add(&errs.TaskNotFoundError{
-					Path:         path,
+					Path:         taskPath(task, path),
 					Line:         line,
 					TaskName:     dep,
 					ReferencedBy: name,
@@ -76,7 +83,7 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 
 func validateRunTaskRefs(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	for name, task := range tasks {
-		validateRunItemTaskRefs(path, name, task.Run, tasks, verrs)
+		validateRunItemTaskRefs(taskPath(task, path), name, task.Run, tasks, verrs)
 	}
 }
 
diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index ca76d67..c60ec46 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -78,7 +78,7 @@ func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, ta
 			log.Debug("Skipping parallel item", "task", task.Name, "index", i+1, "reason", "platform")
 			continue
 		}
-		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task, i+1); err != nil {
 			return err
 		} else if shouldSkip {
 			continue
@@ -335,7 +335,7 @@ func (r *Runner) executeRunItem(ctx context.Context, item babfile.RunItem, task
 		return r.runTask(ctx, v.Task, tasks, state, false, effSilent, effOutput, stdout, stderr, noColor, pctx)
 
 	case babfile.LogRun:
-		logCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+		logCtx := interpolate.NewContextWithLocation(taskVars, r.sourcePath(task), v.Line)
 		interpolatedLog, err := interpolate.Interpolate(v.Log, logCtx)
 		if err != nil {
 			return err
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 0c163a9..4c26bed 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -94,6 +94,13 @@ func (r *Runner) resolveTaskName(name string) string {
 	return name
 }
 
+func (r *Runner) sourcePath(task *babfile.Task) string {
+	if task.SourcePath != "" {
+		return task.SourcePath
+	}
+	return r.BabfilePath
+}
+
 func (r *Runner) RunWithTasks(ctx context.Context, taskName string, tasks babfile.TaskMap) error {
 	if fd := int(os.Stdin.Fd()); term.IsTerminal(fd) {
 		if oldState, err := term.GetState(fd); err == nil {
@@ -156,11 +163,11 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 	}
 
 	if task.When != "" {
-		whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+		whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.sourcePath(task), task.Line)
 		if err != nil {
 			return err
 		}
-		whenCtx := interpolate.NewContextWithLocation(whenVars, r.BabfilePath, task.Line)
+		whenCtx := interpolate.NewContextWithLocation(whenVars, r.sourcePath(task), task.Line)
 		result, err := condition.Evaluate(task.When, whenCtx)
 		if err != nil {
 			return fmt.Errorf("task %q: evaluating when condition: %w", name, err)
@@ -210,12 +217,12 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 	executed := 0
 	skippedByCondition := 0
 
-	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.sourcePath(task), task.Line)
 	if err != nil {
 		return err
 	}
 
-	taskCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, task.Line)
+	taskCtx := interpolate.NewContextWithLocation(taskVars, r.sourcePath(task), task.Line)
 
 	taskEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(r.GlobalEnv, task.Env), taskCtx)
 	if err != nil {
@@ -236,7 +243,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 			continue
 		}
 
-		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task, i+1); err != nil {
 			return err
 		} else if shouldSkip {
 			skippedByCondition++
@@ -245,7 +252,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 
 		switch v := item.(type) {
 		case babfile.PromptRun:
-			promptCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+			promptCtx := interpolate.NewContextWithLocation(taskVars, r.sourcePath(task), v.Line)
 
 			interpolated, err := interpolatePrompt(v, promptCtx)
 			if err != nil {
@@ -302,7 +309,7 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return fmt.Errorf("task %q has an empty command", task.Name)
 	}
 
-	cmdCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+	cmdCtx := interpolate.NewContextWithLocation(taskVars, r.sourcePath(task), v.Line)
 	interpolatedCmd, err := interpolate.Interpolate(v.Cmd, cmdCtx)
 	if err != nil {
 		return err
@@ -348,20 +355,20 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 	return nil
 }
 
-func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, taskName string, index int) (bool, error) {
+func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, task *babfile.Task, index int) (bool, error) {
 	whenCond := item.GetWhen()
 	if whenCond == "" {
 		return false, nil
 	}
 
-	itemCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, item.GetLine())
+	itemCtx := interpolate.NewContextWithLocation(taskVars, r.sourcePath(task), item.GetLine())
 	result, err := condition.Evaluate(whenCond, itemCtx)
 	if err != nil {
-		return false, fmt.Errorf("task %q: run[%d]: evaluating when condition: %w", taskName, index, err)
+		return false, fmt.Errorf("task %q: run[%d]: evaluating when condition: %w", task.Name, index, err)
 	}
 
 	if !result.ShouldRun {
-		log.Debug("Skipping run item", "task", taskName, "index", index, "reason", "when condition", "detail", result.Reason)
+		log.Debug("Skipping run item", "task", task.Name, "index", index, "reason", "when condition", "detail", result.Reason)
 		return true, nil
 	}
 
-- 
2.43.0


From 0c9e1d66b4efd58cf675c7c227ae808d767e2b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 15/20] fix: report the same error first on every run

---
 internal/interpolate/interpolate.go |  4 +++-
 internal/parser/parser.go           |  4 +++-
 internal/parser/validate.go         | 19 +++++++++++++++----
 internal/runner/runner.go           |  6 ++++--
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index 3ab677f..67e887b 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -1,8 +1,10 @@
 package interpolate
 
 import (
+	"maps"
 	"os"
 	"regexp"
+	"slices"
 	"strings"
 
 	"github.com/bab-sh/bab/internal/errs"
@@ -178,7 +180,7 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		return value, nil
 	}
 
-	for name := range vars {
+	for _, name := range slices.Sorted(maps.Keys(vars)) {
 		if _, err := resolveOne(name); err != nil {
 			return nil, err
 		}
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index d8355de..114370c 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"errors"
+	"maps"
 	"os"
 	"path/filepath"
 	"slices"
@@ -94,7 +95,8 @@ func parseFile(absPath string, visited map[string]bool) (*ParseResult, error) {
 	}
 
 	baseDir := filepath.Dir(absPath)
-	for namespace, inc := range bf.Includes {
+	for _, namespace := range slices.Sorted(maps.Keys(bf.Includes)) {
+		inc := bf.Includes[namespace]
 		if err := resolveInclude(namespace, inc.Babfile, baseDir, tasks, visited); err != nil {
 			return nil, &errs.ParseError{Path: absPath, Message: "include " + namespace + " failed", Cause: err}
 		}
diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 2952031..751add8 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"slices"
+
 	"github.com/bab-sh/bab/internal/babfile"
 	"github.com/bab-sh/bab/internal/errs"
 )
@@ -14,6 +16,12 @@ func validateAll(path string, tasks babfile.TaskMap) error {
 	return verrs.OrNil()
 }
 
+func sortedNames(tasks babfile.TaskMap) []string {
+	names := tasks.Names()
+	slices.Sort(names)
+	return names
+}
+
 func taskPath(task *babfile.Task, path string) string {
 	if task.SourcePath != "" {
 		return task.SourcePath
@@ -28,7 +36,8 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 	}
 	aliasToTask := make(map[string]aliasInfo)
 
-	for name, task := range tasks {
+	for _, name := range sortedNames(tasks) {
+		task := tasks[name]
 		for _, alias := range task.GetAllAliases() {
 			if alias == "" {
 				continue
@@ -62,7 +71,8 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 }
 
 func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
-	for name, task := range tasks {
+	for _, name := range sortedNames(tasks) {
+		task := tasks[name]
 		for _, dep := range task.Deps {
 			if !tasks.Has(dep) {
 				line := task.DepsLine
@@ -82,7 +92,8 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 }
 
 func validateRunTaskRefs(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
-	for name, task := range tasks {
+	for _, name := range sortedNames(tasks) {
+		task := tasks[name]
 		validateRunItemTaskRefs(taskPath(task, path), name, task.Run, tasks, verrs)
 	}
 }
@@ -165,7 +176,7 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 		recStack[name] = false
 	}
 
-	for name := range tasks {
+	for _, name := range sortedNames(tasks) {
 		if !visited[name] {
 			dfs(name, nil)
 		}
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 4c26bed..0bcae0a 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -4,10 +4,12 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"maps"
 	"os"
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 
 	"github.com/bab-sh/bab/internal/babfile"
@@ -427,8 +429,8 @@ func (r *Runner) interpolateEnv(env map[string]string, ctx *interpolate.Context)
 	}
 
 	result := make(map[string]string, len(env))
-	for k, v := range env {
-		interpolated, err := interpolate.Interpolate(v, ctx)
+	for _, k := range slices.Sorted(maps.Keys(env)) {
+		interpolated, err := interpolate.Interpolate(env[k], ctx)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 2c1a4e1d4072edaf5e1056c7484517f97b1bd2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 16/20] fix: report every dependency cycle with its own chain

---
 internal/parser/validate.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 751add8..1f5663a 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -129,11 +129,10 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 			switch v := item.(type) {
 			case babfile.TaskRun:
 				if recStack[v.Task] {
-					chain = append(chain, v.Task)
 					verrs.Add(&errs.CircularDepError{
 						Path:  path,
 						Type:  "dependency",
-						Chain: chain,
+						Chain: append(slices.Clone(chain), v.Task),
 					})
 					return
 				}
@@ -159,12 +158,12 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 
 		for _, dep := range task.Deps {
 			if recStack[dep] {
-				chain = append(chain, dep)
 				verrs.Add(&errs.CircularDepError{
 					Path:  path,
 					Type:  "dependency",
-					Chain: chain,
+					Chain: append(slices.Clone(chain), dep),
 				})
+				recStack[name] = false
 				return
 			}
 			if !visited[dep] && tasks.Has(dep) {
-- 
2.43.0


From a0a6f7dd30340c87c088e93c6da285dd459bf1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 17/20] fix: report the same include collision first on every
 run

---
 internal/parser/include.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index d71de31..3447242 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -22,7 +22,8 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 		return err
 	}
 
-	for name, task := range result.Tasks {
+	for _, name := range sortedNames(result.Tasks) {
+		task := result.Tasks[name]
 		prefixedName := namespace + ":" + name
 		if tasks.Has(prefixedName) {
 			return &errs.ParseError{Path: incPath, Message: "task name collision: " + prefixedName}
-- 
2.43.0


From 31c48bdb705eaa07f2291f09b94859689b9d4152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 18/20] fix: reject non-scalar text fields and follow YAML
 aliases

---
 internal/parser/unmarshal.go | 76 ++++++++++++++++++++++++++++--------
 1 file changed, 60 insertions(+), 16 deletions(-)

diff --git a/internal/parser/unmarshal.go b/internal/parser/unmarshal.go
index 5720a8b..0ddc5e7 100644
--- a/internal/parser/unmarshal.go
+++ b/internal/parser/unmarshal.go
@@ -121,6 +121,19 @@ func parseVarMap(path string, node *yaml.Node, vars *babfile.VarMap, verrs *errs
 	return !hasErrors
 }
 
+func parseString(path, prefix string, key, node *yaml.Node, target *string, verrs *errs.ValidationErrors) bool {
+	if node.Kind == yaml.AliasNode {
+		node = node.Alias
+	}
+	if node.Kind != yaml.ScalarNode {
+		verrs.Add(&errs.ParseError{Path: path, Line: node.Line, Message: fmt.Sprintf("%s: %s must be a string", prefix, key.Value)})
+		return false
+	}
+
+	*target = node.Value
+	return true
+}
+
 func parseBool(path string, node *yaml.Node, target **bool, verrs *errs.ValidationErrors) bool {
 	if node.Kind != yaml.ScalarNode {
 		verrs.Add(&errs.ParseError{Path: path, Line: node.Line, Message: "expected boolean value"})
@@ -242,9 +255,13 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 
 		switch key.Value {
 		case keyDesc:
-			task.Desc = val.Value
+			if !parseString(path, fmt.Sprintf("task %q", taskName), key, val, &task.Desc, verrs) {
+				hasErrors = true
+			}
 		case keyAlias:
-			task.Alias = val.Value
+			if !parseString(path, fmt.Sprintf("task %q", taskName), key, val, &task.Alias, verrs) {
+				hasErrors = true
+			}
 		case keyAliases:
 			if err := val.Decode(&task.Aliases); err != nil {
 				verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: invalid aliases", taskName), Cause: err})
@@ -274,7 +291,9 @@ func parseTask(path string, node *yaml.Node, taskName string, verrs *errs.Valida
 				task.Dir = val.Value
 			}
 		case keyWhen:
-			task.When = val.Value
+			if !parseString(path, fmt.Sprintf("task %q", taskName), key, val, &task.When, verrs) {
+				hasErrors = true
+			}
 		case keyDeps:
 			task.DepsLine = key.Line
 			if err := val.Decode(&task.Deps); err != nil {
@@ -315,19 +334,21 @@ func parseRunItems(path string, node *yaml.Node, taskName string, verrs *errs.Va
 }
 
 func parsePromptKey(key, val *yaml.Node, pf *promptFields, path, taskName string, index int, verrs *errs.ValidationErrors) bool {
+	prefix := fmt.Sprintf("task %q: run[%d]", taskName, index)
+
 	switch key.Value {
 	case keyPrompt:
-		pf.name = val.Value
+		return parseString(path, prefix, key, val, &pf.name, verrs)
 	case keyType:
-		pf.promptType = val.Value
+		return parseString(path, prefix, key, val, &pf.promptType, verrs)
 	case keyMessage:
-		pf.message = val.Value
+		return parseString(path, prefix, key, val, &pf.message, verrs)
 	case keyDefault:
-		pf.dflt = val.Value
+		return parseString(path, prefix, key, val, &pf.dflt, verrs)
 	case keyPlaceholder:
-		pf.placeholder = val.Value
+		return parseString(path, prefix, key, val, &pf.placeholder, verrs)
 	case keyValidate:
-		pf.validate = val.Value
+		return parseString(path, prefix, key, val, &pf.validate, verrs)
 	case keyOptions:
 		if err := val.Decode(&pf.options); err != nil {
 			verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("task %q: run[%d]: invalid options", taskName, index), Cause: err})
@@ -394,6 +415,8 @@ func parseRunItem(path string, node *yaml.Node, taskName string, index int, verr
 	count := countRunTypes(rf.cmd, rf.task, rf.log, rf.pf.name)
 
 	switch {
+	case count == 0 && rf.hasErrors:
+		return nil, false
 	case count > 1:
 		verrs.Add(&errs.ParseError{Path: path, Line: node.Line, Message: fmt.Sprintf("task %q: run[%d]: run item can only have one of 'cmd', 'task', 'log', or 'prompt'", taskName, index)})
 		return nil, false
@@ -428,6 +451,7 @@ type runFields struct {
 
 func parseRunFields(path string, node *yaml.Node, taskName string, index int, verrs *errs.ValidationErrors) runFields {
 	rf := runFields{line: node.Line}
+	prefix := fmt.Sprintf("task %q: run[%d]", taskName, index)
 
 	for i := 0; i < len(node.Content); i += 2 {
 		key := node.Content[i]
@@ -435,7 +459,9 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 
 		switch key.Value {
 		case keyCmd:
-			rf.cmd = val.Value
+			if !parseString(path, prefix, key, val, &rf.cmd, verrs) {
+				rf.hasErrors = true
+			}
 		case keyDir:
 			if val.Kind != yaml.ScalarNode {
 				verrs.Add(&errs.ParseError{Path: path, Line: val.Line, Message: fmt.Sprintf("task %q: run[%d]: dir must be a string", taskName, index)})
@@ -444,13 +470,23 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 				rf.dir = val.Value
 			}
 		case keyWhen:
-			rf.when = val.Value
+			if !parseString(path, prefix, key, val, &rf.when, verrs) {
+				rf.hasErrors = true
+			}
 		case keyTask:
-			rf.task = val.Value
+			if !parseString(path, prefix, key, val, &rf.task, verrs) {
+				rf.hasErrors = true
+			}
 		case keyLog:
-			rf.log = val.Value
+			if !parseString(path, prefix, key, val, &rf.log, verrs) {
+				rf.hasErrors = true
+			}
 		case keyLevel:
-			rf.level = babfile.LogLevel(val.Value)
+			var level string
+			if !parseString(path, prefix, key, val, &level, verrs) {
+				rf.hasErrors = true
+			}
+			rf.level = babfile.LogLevel(level)
 		case keyEnv:
 			if !parseEnvMap(path, val, &rf.env, verrs) {
 				rf.hasErrors = true
@@ -470,6 +506,10 @@ func parseRunFields(path string, node *yaml.Node, taskName string, index int, ve
 				rf.hasErrors = true
 			}
 		case keyLabel:
+			var label string
+			if !parseString(path, prefix, key, val, &label, verrs) {
+				rf.hasErrors = true
+			}
 		default:
 			if !parsePromptKey(key, val, &rf.pf, path, taskName, index, verrs) {
 				rf.hasErrors = true
@@ -531,7 +571,7 @@ func parseParallelKey(key, val *yaml.Node, pf *parallelFields, path, prefix stri
 		pf.platforms, ok = parsePlatforms(path, key.Line, prefix, val, verrs)
 		return ok
 	case keyWhen:
-		pf.when = val.Value
+		return parseString(path, prefix, key, val, &pf.when, verrs)
 	default:
 		verrs.Add(&errs.ParseError{Path: path, Line: key.Line, Message: fmt.Sprintf("%s: unknown key %q in parallel block", prefix, key.Value)})
 		return false
@@ -563,7 +603,11 @@ func extractParallelLabels(itemsNode *yaml.Node, items []babfile.RunItem) []stri
 		if itemNode.Kind == yaml.MappingNode {
 			for k := 0; k < len(itemNode.Content); k += 2 {
 				if itemNode.Content[k].Value == keyLabel {
-					labels[j] = itemNode.Content[k+1].Value
+					labelNode := itemNode.Content[k+1]
+					if labelNode.Kind == yaml.AliasNode {
+						labelNode = labelNode.Alias
+					}
+					labels[j] = labelNode.Value
 					break
 				}
 			}
-- 
2.43.0


From 67dbd8f3463fc0484b327fceff6225ab67841e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 19/20] fix: do not run dependencies of a skipped task before a
 parallel block

---
 internal/runner/parallel.go |  5 +++++
 internal/runner/runner.go   | 43 ++++++++++++++++++++++++-------------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index c60ec46..a0a0a78 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -366,6 +366,11 @@ func (r *Runner) preResolveDeps(ctx context.Context, items []babfile.RunItem, ta
 		if !exists {
 			return fmt.Errorf("parallel item references unknown task %q", tr.Task)
 		}
+		if shouldSkip, err := r.shouldSkipTask(tr.Task, task); err != nil {
+			return err
+		} else if shouldSkip {
+			continue
+		}
 		for _, dep := range task.Deps {
 			if seen[dep] {
 				continue
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 0bcae0a..991baa8 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -164,21 +164,11 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 	}
 
-	if task.When != "" {
-		whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.sourcePath(task), task.Line)
-		if err != nil {
-			return err
-		}
-		whenCtx := interpolate.NewContextWithLocation(whenVars, r.sourcePath(task), task.Line)
-		result, err := condition.Evaluate(task.When, whenCtx)
-		if err != nil {
-			return fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-		}
-		if !result.ShouldRun {
-			log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
-			state.set(name, done)
-			return nil
-		}
+	if shouldSkip, err := r.shouldSkipTask(name, task); err != nil {
+		return err
+	} else if shouldSkip {
+		state.set(name, done)
+		return nil
 	}
 
 	if !r.DryRun && !isSilent(overrideSilent, task.Silent, r.GlobalSilent) {
@@ -357,6 +347,29 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 	return nil
 }
 
+func (r *Runner) shouldSkipTask(name string, task *babfile.Task) (bool, error) {
+	if task.When == "" {
+		return false, nil
+	}
+
+	whenVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.sourcePath(task), task.Line)
+	if err != nil {
+		return false, err
+	}
+	whenCtx := interpolate.NewContextWithLocation(whenVars, r.sourcePath(task), task.Line)
+	result, err := condition.Evaluate(task.When, whenCtx)
+	if err != nil {
+		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
+	}
+
+	if !result.ShouldRun {
+		log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
+		return true, nil
+	}
+
+	return false, nil
+}
+
 func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, task *babfile.Task, index int) (bool, error) {
 	whenCond := item.GetWhen()
 	if whenCond == "" {
-- 
2.43.0


From 0e659505702eca4261db575a08ce29cbc8753b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 20/20] fix: lines ending in CR LF were shown empty in parallel
 blocks

---
 internal/runner/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index ac210c6..baf16b2 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -74,6 +74,7 @@ type lineBuffer struct {
 }
 
 func resolveCR(raw string) string {
+	raw = strings.TrimRight(raw, "\r")
 	if i := strings.LastIndexByte(raw, '\r'); i >= 0 {
 		return raw[i+1:]
 	}
-- 
2.43.0

