From e127f57a538cd545ffbec8d00c18c4b0bd1e2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 01/31] fix: wait for a task another parallel item is running
 instead of reporting a cycle

---
 internal/runner/parallel.go | 49 +++++++++++++++++++++++++++++--------
 internal/runner/runner.go   | 28 ++++++++++++---------
 2 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 6c95998..9932727 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -31,31 +32,47 @@ func pathToKey(path []int) string {
 	return strings.Join(parts, ".")
 }
 
+type taskState struct {
+	status   status
+	finished chan struct{}
+	err      error
+}
+
 type syncState struct {
 	mu    sync.Mutex
-	state map[string]status
+	state map[string]*taskState
 }
 
 func (s *syncState) get(name string) status {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	return s.state[name]
+	if t := s.state[name]; t != nil {
+		return t.status
+	}
+	return 0
 }
 
-func (s *syncState) set(name string, st status) {
+// claim reserves the task for the caller. If it has been claimed before, the
+// existing execution is returned instead.
+func (s *syncState) claim(name string) (*taskState, bool) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	s.state[name] = st
+	if t := s.state[name]; t != nil {
+		return t, false
+	}
+	t := &taskState{status: running, finished: make(chan struct{})}
+	s.state[name] = t
+	return t, true
 }
 
-func (s *syncState) claim(name string) status {
+func (s *syncState) finish(t *taskState, err error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	current := s.state[name]
-	if current == 0 {
-		s.state[name] = running
+	t.err = err
+	if err == nil {
+		t.status = done
 	}
-	return current
+	close(t.finished)
 }
 
 func (s *syncState) snapshot() map[string]status {
@@ -63,11 +80,23 @@ func (s *syncState) snapshot() map[string]status {
 	defer s.mu.Unlock()
 	cp := make(map[string]status, len(s.state))
 	for k, v := range s.state {
-		cp[k] = v
+		cp[k] = v.status
 	}
 	return cp
 }
 
+type taskChainKey struct{}
+
+func inTaskChain(ctx context.Context, name string) bool {
+	chain, _ := ctx.Value(taskChainKey{}).([]string)
+	return slices.Contains(chain, name)
+}
+
+func withTaskChain(ctx context.Context, name string) context.Context {
+	chain, _ := ctx.Value(taskChainKey{}).([]string)
+	return context.WithValue(ctx, taskChainKey{}, append(slices.Clip(chain), name))
+}
+
 func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, parentNoColor bool, pctx *ParallelContext) error {
 	labels := make([]string, len(pr.Items))
 	maxLabelLen := 0
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 07f56da..68d773f 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -101,7 +101,7 @@ func (r *Runner) RunWithTasks(ctx context.Context, taskName string, tasks babfil
 		}
 	}
 
-	state := &syncState{state: make(map[string]status)}
+	state := &syncState{state: make(map[string]*taskState)}
 	return r.runTask(ctx, taskName, tasks, state, true, nil, nil, nil, nil, false, nil)
 }
 
@@ -132,16 +132,24 @@ func firstNonNil(vals ...*bool) *bool {
 	return nil
 }
 
-func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap, state *syncState, isMain bool, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
-	switch state.claim(name) {
-	case done:
-		return nil
-	case running:
-		return &errs.CircularDepError{
-			Type:  "dependency",
-			Chain: buildChainSlice(name, tasks, state.snapshot()),
+func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap, state *syncState, isMain bool, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) (err error) {
+	current, claimed := state.claim(name)
+	if !claimed {
+		if inTaskChain(ctx, name) {
+			return &errs.CircularDepError{
+				Type:  "dependency",
+				Chain: buildChainSlice(name, tasks, state.snapshot()),
+			}
+		}
+		select {
+		case <-current.finished:
+			return current.err
+		case <-ctx.Done():
+			return fmt.Errorf("cancelled: %w", ctx.Err())
 		}
 	}
+	defer func() { state.finish(current, err) }()
+	ctx = withTaskChain(ctx, name)
 
 	task, ok := tasks[name]
 	if !ok {
@@ -163,7 +171,6 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 		if !result.ShouldRun {
 			log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
-			state.set(name, done)
 			return nil
 		}
 	}
@@ -197,7 +204,6 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 	}
 
-	state.set(name, done)
 	return nil
 }
 
-- 
2.43.0


From 4721d802e9b1ff8bbe62a5abf1aa05d780792d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 02/31] fix: honour when and platforms on the items of a
 parallel block

---
 internal/runner/parallel.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 9932727..664b0c7 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"runtime"
 	"slices"
 	"strconv"
 	"strings"
@@ -98,14 +99,30 @@ func withTaskChain(ctx context.Context, name string) context.Context {
 }
 
 func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, task *babfile.Task, tasks babfile.TaskMap, state *syncState, taskVars map[string]string, taskEnv map[string]string, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, parentNoColor bool, pctx *ParallelContext) error {
-	labels := make([]string, len(pr.Items))
+	items := make([]babfile.RunItem, 0, len(pr.Items))
+	labels := make([]string, 0, len(pr.Items))
 	maxLabelLen := 0
-	for i := range pr.Items {
-		labels[i] = pr.ItemLabel(i)
-		if len(labels[i]) > maxLabelLen {
-			maxLabelLen = len(labels[i])
+	for i, item := range pr.Items {
+		if !item.ShouldRunOnPlatform(runtime.GOOS) {
+			log.Debug("Skipping parallel item", "task", task.Name, "index", i+1, "reason", "platform")
+			continue
+		}
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+			return err
+		} else if shouldSkip {
+			continue
+		}
+		label := pr.ItemLabel(i)
+		items = append(items, item)
+		labels = append(labels, label)
+		if len(label) > maxLabelLen {
+			maxLabelLen = len(label)
 		}
 	}
+	if len(items) == 0 {
+		return nil
+	}
+	pr.Items, pr.Labels = items, labels
 
 	noColor := parentNoColor || !pr.UseColor()
 
-- 
2.43.0


From 2827d4f943015fcb69f1f3774ad5d94f654a4c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 03/31] fix: do not run the dependencies of a skipped task in a
 parallel block

---
 internal/runner/parallel.go |  5 +++++
 internal/runner/runner.go   | 30 ++++++++++++++++++++----------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 664b0c7..d41fd91 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -387,6 +387,11 @@ func (r *Runner) preResolveDeps(ctx context.Context, items []babfile.RunItem, ta
 		if !exists {
 			return fmt.Errorf("parallel item references unknown task %q", tr.Task)
 		}
+		if shouldRun, err := r.shouldRunTask(tr.Task, task); err != nil {
+			return err
+		} else if !shouldRun {
+			continue
+		}
 		for _, dep := range task.Deps {
 			if seen[dep] {
 				continue
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 68d773f..e34623d 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -163,16 +163,10 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 		}
 	}
 
-	if task.When != "" {
-		whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
-		result, err := condition.Evaluate(task.When, whenCtx)
-		if err != nil {
-			return fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-		}
-		if !result.ShouldRun {
-			log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
-			return nil
-		}
+	if shouldRun, err := r.shouldRunTask(name, task); err != nil {
+		return err
+	} else if !shouldRun {
+		return nil
 	}
 
 	if !r.DryRun && !isSilent(overrideSilent, task.Silent, r.GlobalSilent) {
@@ -207,6 +201,22 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 	return nil
 }
 
+func (r *Runner) shouldRunTask(name string, task *babfile.Task) (bool, error) {
+	if task.When == "" {
+		return true, nil
+	}
+
+	whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
+	result, err := condition.Evaluate(task.When, whenCtx)
+	if err != nil {
+		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
+	}
+	if !result.ShouldRun {
+		log.Debug("Skipping task", "task", name, "reason", "when condition", "detail", result.Reason)
+	}
+	return result.ShouldRun, nil
+}
+
 func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babfile.TaskMap, state *syncState, overrideSilent, overrideOutput *bool, stdout, stderr io.Writer, noColor bool, pctx *ParallelContext) error {
 	platform := runtime.GOOS
 	executed := 0
-- 
2.43.0


From 91f359d048c65cdaa3b98b0b6dc3e527338e7cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 04/31] fix: keep prompt answers local to the task that asked
 for them

---
 internal/runner/runner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index e34623d..d2bb1f9 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"maps"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -226,6 +227,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 	if err != nil {
 		return err
 	}
+	taskVars = maps.Clone(taskVars)
 
 	taskCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, task.Line)
 
-- 
2.43.0


From e2f6d649103cb8957ca6e2d41f56fe80c070c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 05/31] fix: keep lines that end in CRLF in the output of a
 parallel block

---
 internal/runner/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/runner/writer.go b/internal/runner/writer.go
index ac210c6..baf16b2 100644
--- a/internal/runner/writer.go
+++ b/internal/runner/writer.go
@@ -74,6 +74,7 @@ type lineBuffer struct {
 }
 
 func resolveCR(raw string) string {
+	raw = strings.TrimRight(raw, "\r")
 	if i := strings.LastIndexByte(raw, '\r'); i >= 0 {
 		return raw[i+1:]
 	}
-- 
2.43.0


From b4c0ee0e1d388dfb9ac7bdc5f1b6d12c86ab8ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 06/31] fix: keep silent and output of a parallel block in an
 included file

---
 internal/parser/include.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index 1a8ae84..fdbf31c 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -124,6 +124,8 @@ func prefixTaskRuns(items []babfile.RunItem, namespace string) []babfile.RunItem
 				Mode:      v.Mode,
 				Limit:     v.Limit,
 				Color:     v.Color,
+				Silent:    v.Silent,
+				Output:    v.Output,
 				Platforms: v.Platforms,
 				When:      v.When,
 			}
-- 
2.43.0


From 14800f4151290bd8d6889c02746a506450797950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 07/31] fix: end background processes that hold a command's
 output when cancelled

---
 internal/runner/runner.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index d2bb1f9..9cbbf90 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -544,7 +544,21 @@ func runCommandWithWriters(ctx context.Context, shell, shellArg, command string,
 		cmd.Dir = dir
 	}
 
-	err := cmd.Run()
+	if err := cmd.Start(); err != nil {
+		if ctx.Err() != nil {
+			return ctx.Err()
+		}
+		return err
+	}
+
+	// Wait also waits for background processes that keep the output open, but
+	// exec stops watching the context as soon as the shell itself has exited.
+	stop := context.AfterFunc(ctx, func() {
+		_ = signalProcessGroup(cmd)
+	})
+	defer stop()
+
+	err := cmd.Wait()
 	if err != nil && ctx.Err() != nil {
 		return ctx.Err()
 	}
-- 
2.43.0


From ee4f86ec2ac656731722c376852e4935ae2e73cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 08/31] fix: compare empty and multi-line values in when
 conditions

---
 internal/condition/condition.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/condition/condition.go b/internal/condition/condition.go
index 713e2d6..ebd455d 100644
--- a/internal/condition/condition.go
+++ b/internal/condition/condition.go
@@ -9,8 +9,8 @@ import (
 )
 
 var (
-	comparisonPatternSQ = regexp.MustCompile(`^(.+?)\s*(==|!=)\s*'([^']*)'$`)
-	comparisonPatternDQ = regexp.MustCompile(`^(.+?)\s*(==|!=)\s*"([^"]*)"$`)
+	comparisonPatternSQ = regexp.MustCompile(`(?s)^(.*?)\s*(==|!=)\s*'([^']*)'$`)
+	comparisonPatternDQ = regexp.MustCompile(`(?s)^(.*?)\s*(==|!=)\s*"([^"]*)"$`)
 )
 
 type Result struct {
-- 
2.43.0


From b9b0f389b9601329f4d003a4f48a30e1d0574962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 09/31] fix: do not follow escaped references when resolving
 variables

---
 internal/interpolate/interpolate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index cd6369d..45712c8 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -146,7 +146,7 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		resolving[name] = true
 		resolvingStack = append(resolvingStack, name)
 
-		matches := Pattern.FindAllStringSubmatch(raw, -1)
+		matches := Pattern.FindAllStringSubmatch(EscapePattern.ReplaceAllString(raw, ""), -1)
 		for _, match := range matches {
 			if len(match) < 2 {
 				continue
-- 
2.43.0


From cca40c2af777da6634a060252963bf71da6cbcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 10/31] fix: interpolate the environment of a task only once

---
 internal/runner/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 9cbbf90..7b78049 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -321,10 +321,11 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return err
 	}
 
-	cmdEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(taskEnv, v.Env), cmdCtx)
+	cmdEnv, err := r.interpolateEnv(v.Env, cmdCtx)
 	if err != nil {
 		return err
 	}
+	cmdEnv = babfile.MergeEnvMaps(taskEnv, cmdEnv)
 
 	cmdDir, err := r.resolveDir(task, v.Dir, cmdCtx)
 	if err != nil {
-- 
2.43.0


From 298d875b57a2203984777e4179ae36510470055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 11/31] fix: leave signals to the context while a prompt, the
 picker or a live display runs

A second signal handler inside the terminal program competed with the
context: when both saw SIGINT or SIGTERM the handler could block for good
and bab hung with the terminal in raw mode.
---
 internal/tui/parallel.go |  2 +-
 internal/tui/prompt.go   | 22 +++++++++++++++-------
 internal/tui/tui.go      |  2 +-
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/internal/tui/parallel.go b/internal/tui/parallel.go
index c1f701c..8a4d3b9 100644
--- a/internal/tui/parallel.go
+++ b/internal/tui/parallel.go
@@ -46,7 +46,7 @@ type ItemClearChildrenMsg struct {
 type AllDoneMsg struct{}
 
 func RunParallel(model tea.Model) (*tea.Program, error) {
-	program := tea.NewProgram(model, tea.WithOutput(os.Stderr))
+	program := tea.NewProgram(model, tea.WithOutput(os.Stderr), tea.WithoutSignalHandler())
 	go func() {
 		_, _ = program.Run()
 	}()
diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index 5fe1230..bb04308 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -10,6 +10,7 @@ import (
 	"strconv"
 	"strings"
 
+	tea "charm.land/bubbletea/v2"
 	"charm.land/huh/v2"
 	"github.com/bab-sh/bab/internal/babfile"
 	"golang.org/x/term"
@@ -81,6 +82,13 @@ func normalizeConfirmDefault(s string) string {
 	}
 }
 
+// newForm builds a form that leaves signals to the context it runs with: a
+// handler of its own, competing with the context, may block the form for good.
+func newForm(field huh.Field) *huh.Form {
+	return huh.NewForm(huh.NewGroup(field)).
+		WithProgramOptions(tea.WithOutput(os.Stderr), tea.WithoutSignalHandler())
+}
+
 func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (string, error) {
 	var result bool
 
@@ -92,7 +100,7 @@ func runConfirm(ctx context.Context, p babfile.PromptRun, message string) (strin
 		Title(message).
 		Value(&result)
 
-	form := huh.NewForm(huh.NewGroup(confirm))
+	form := newForm(confirm)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
@@ -127,7 +135,7 @@ func runInput(ctx context.Context, p babfile.PromptRun, message string) (string,
 		})
 	}
 
-	form := huh.NewForm(huh.NewGroup(input))
+	form := newForm(input)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
@@ -154,7 +162,7 @@ func runSelect(ctx context.Context, p babfile.PromptRun, message string) (string
 		Options(options...).
 		Value(&result)
 
-	form := huh.NewForm(huh.NewGroup(sel))
+	form := newForm(sel)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
@@ -194,7 +202,7 @@ func runMultiselect(ctx context.Context, p babfile.PromptRun, message string) (s
 		})
 	}
 
-	form := huh.NewForm(huh.NewGroup(multi))
+	form := newForm(multi)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
@@ -213,7 +221,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 		EchoMode(huh.EchoModePassword).
 		Value(&result)
 
-	form := huh.NewForm(huh.NewGroup(pw))
+	form := newForm(pw)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
@@ -234,7 +242,7 @@ func runPassword(ctx context.Context, p babfile.PromptRun, message string) (stri
 				return nil
 			})
 
-		confirmForm := huh.NewForm(huh.NewGroup(confirmPw))
+		confirmForm := newForm(confirmPw)
 		if err := confirmForm.RunWithContext(ctx); err != nil {
 			if errors.Is(err, huh.ErrUserAborted) {
 				return "", ErrPromptCancelled
@@ -279,7 +287,7 @@ func runNumber(ctx context.Context, p babfile.PromptRun, message string) (string
 		input.Placeholder(p.Placeholder)
 	}
 
-	form := huh.NewForm(huh.NewGroup(input))
+	form := newForm(input)
 	if err := form.RunWithContext(ctx); err != nil {
 		if errors.Is(err, huh.ErrUserAborted) {
 			return "", ErrPromptCancelled
diff --git a/internal/tui/tui.go b/internal/tui/tui.go
index 83645b5..de9d1f1 100644
--- a/internal/tui/tui.go
+++ b/internal/tui/tui.go
@@ -16,7 +16,7 @@ func PickTask(ctx context.Context, tasks babfile.TaskMap) (*babfile.Task, error)
 		return nil, errs.ErrNoTasks
 	}
 
-	result, err := tea.NewProgram(picker.New(tasks), tea.WithContext(ctx)).Run()
+	result, err := tea.NewProgram(picker.New(tasks), tea.WithContext(ctx), tea.WithoutSignalHandler()).Run()
 	if err != nil {
 		if errors.Is(err, tea.ErrProgramKilled) {
 			return nil, context.Canceled
-- 
2.43.0


From 71375c711d59ac3411be36860bc2508bf4a6674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 12/31] fix: fail a parallel block that is cancelled before all
 its items ran

An item waiting for a free slot was skipped without an error, so the steps
after the block could run although it had not.
---
 internal/runner/parallel.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index d41fd91..a0b6051 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -208,6 +208,9 @@ func (r *Runner) executeParallelInterleaved(ctx context.Context, pr babfile.Para
 	}
 
 	wg.Wait()
+	if firstErr == nil {
+		firstErr = ctx.Err()
+	}
 	return firstErr
 }
 
@@ -317,6 +320,9 @@ func (r *Runner) executeParallelTUI(ctx context.Context, pr babfile.ParallelRun,
 	}
 
 	wg.Wait()
+	if firstErr == nil {
+		firstErr = ctx.Err()
+	}
 
 	if pctx != nil {
 		program.Send(tui.ItemClearChildrenMsg{Key: pathToKey(basePath)})
-- 
2.43.0


From e47f19de664c4cbc5289a7d835c5965cddb76b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 13/31] fix: keep following the output of a tab when the
 terminal gets smaller

---
 internal/tui/parallel_tabs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tui/parallel_tabs.go b/internal/tui/parallel_tabs.go
index 5ff535f..bcad0e0 100644
--- a/internal/tui/parallel_tabs.go
+++ b/internal/tui/parallel_tabs.go
@@ -94,12 +94,12 @@ func (m *tabsModel) updateViewport() {
 	if contentHeight < 1 {
 		contentHeight = 1
 	}
+	atBottom := m.viewport.AtBottom()
 	m.viewport.SetWidth(contentWidth)
 	m.viewport.SetHeight(contentHeight)
 
 	content := m.buildContent(activeItem, contentWidth)
 
-	atBottom := m.viewport.AtBottom()
 	m.viewport.SetContent(content)
 	if atBottom {
 		m.viewport.GotoBottom()
-- 
2.43.0


From d2e4b6c5722434673888a28555eb79631fb3cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 14/31] fix: list each task on one line of the picker

A description of several lines took several lines of the list, which pushed
the highlighted task off the screen.
---
 internal/tui/picker/view.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tui/picker/view.go b/internal/tui/picker/view.go
index 2e7ab40..efbd576 100644
--- a/internal/tui/picker/view.go
+++ b/internal/tui/picker/view.go
@@ -73,8 +73,8 @@ func (m Model) renderLine(i int) string {
 		}
 	}
 
-	if match.Task.Desc != "" {
-		b.WriteString("  " + descStyle.Render(match.Task.Desc))
+	if desc := strings.Join(strings.Fields(match.Task.Desc), " "); desc != "" {
+		b.WriteString("  " + descStyle.Render(desc))
 	}
 	return b.String()
 }
-- 
2.43.0


From 81e33a1f9367fc2f55645166d7456e6ce7dca664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 15/31] fix: let a dry run go on after a prompt

The items after a prompt that use its answer failed with an undefined
variable. They now show the default, or a placeholder.
---
 internal/runner/runner.go | 5 +++++
 internal/tui/prompt.go    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 7b78049..31b8fd6 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -268,6 +268,11 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 
 			if r.DryRun {
 				log.Info("Would prompt", "var", interpolated.Prompt, "type", interpolated.Type, "message", interpolated.Message)
+				answer, err := tui.DefaultAnswer(interpolated)
+				if err != nil {
+					answer = "<" + v.Prompt + ">"
+				}
+				taskVars[v.Prompt] = answer
 			} else {
 				result, err := tui.RunPrompt(ctx, interpolated, interpolated.Message)
 				if err != nil {
diff --git a/internal/tui/prompt.go b/internal/tui/prompt.go
index bb04308..16047c9 100644
--- a/internal/tui/prompt.go
+++ b/internal/tui/prompt.go
@@ -48,6 +48,11 @@ func RunPrompt(ctx context.Context, p babfile.PromptRun, message string) (string
 	}
 }
 
+// DefaultAnswer is the answer a prompt gets when nobody can be asked.
+func DefaultAnswer(p babfile.PromptRun) (string, error) {
+	return handleNonInteractive(p)
+}
+
 func handleNonInteractive(p babfile.PromptRun) (string, error) {
 	switch p.Type {
 	case babfile.PromptTypeConfirm:
-- 
2.43.0


From 27995fa1f409131fd1c5cb22521eed72c18660a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 16/31] fix: name the included file in messages about its tasks

Messages gave the line in the included file but the path of the main Babfile.
---
 internal/parser/validate.go | 16 ++++++++++++----
 internal/runner/parallel.go |  4 ++--
 internal/runner/runner.go   | 28 ++++++++++++++++++----------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 0076478..2daddc3 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -14,6 +14,14 @@ func validateAll(path string, tasks babfile.TaskMap) error {
 	return verrs.OrNil()
 }
 
+// sourceOf is the file a task is written in, which may be an included one.
+func sourceOf(task *babfile.Task, path string) string {
+	if task != nil && task.SourcePath != "" {
+		return task.SourcePath
+	}
+	return path
+}
+
 func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	type aliasInfo struct {
 		taskName string
@@ -29,7 +37,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 
 			if tasks.Has(alias) {
 				verrs.Add(&errs.AliasConflictError{
-					Path:     path,
+					Path:     sourceOf(task, path),
 					Line:     task.Line,
 					Alias:    alias,
 					TaskName: name,
@@ -39,7 +47,7 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 
 			if existing, exists := aliasToTask[alias]; exists {
 				verrs.Add(&errs.DuplicateAliasError{
-					Path:         path,
+					Path:         sourceOf(task, path),
 					Line:         task.Line,
 					Alias:        alias,
 					TaskName:     name,
@@ -63,7 +71,7 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 					line = task.Line
 				}
 				verrs.Add(&errs.TaskNotFoundError{
-					Path:         path,
+					Path:         sourceOf(task, path),
 					Line:         line,
 					TaskName:     dep,
 					ReferencedBy: name,
@@ -76,7 +84,7 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 
 func validateRunTaskRefs(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
 	for name, task := range tasks {
-		validateRunItemTaskRefs(path, name, task.Run, tasks, verrs)
+		validateRunItemTaskRefs(sourceOf(task, path), name, task.Run, tasks, verrs)
 	}
 }
 
diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index a0b6051..b637a46 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -107,7 +107,7 @@ func (r *Runner) executeParallel(ctx context.Context, pr babfile.ParallelRun, ta
 			log.Debug("Skipping parallel item", "task", task.Name, "index", i+1, "reason", "platform")
 			continue
 		}
-		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task, i+1); err != nil {
 			return err
 		} else if shouldSkip {
 			continue
@@ -362,7 +362,7 @@ func (r *Runner) executeRunItem(ctx context.Context, item babfile.RunItem, task
 		return r.runTask(ctx, v.Task, tasks, state, false, effSilent, effOutput, stdout, stderr, noColor, pctx)
 
 	case babfile.LogRun:
-		logCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+		logCtx := interpolate.NewContextWithLocation(taskVars, r.sourceOf(task), v.Line)
 		interpolatedLog, err := interpolate.Interpolate(v.Log, logCtx)
 		if err != nil {
 			return err
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 31b8fd6..9994317 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -202,12 +202,20 @@ func (r *Runner) runTask(ctx context.Context, name string, tasks babfile.TaskMap
 	return nil
 }
 
+// sourceOf is the file a task is written in, which may be an included one.
+func (r *Runner) sourceOf(task *babfile.Task) string {
+	if task.SourcePath != "" {
+		return task.SourcePath
+	}
+	return r.BabfilePath
+}
+
 func (r *Runner) shouldRunTask(name string, task *babfile.Task) (bool, error) {
 	if task.When == "" {
 		return true, nil
 	}
 
-	whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.BabfilePath, task.Line)
+	whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.sourceOf(task), task.Line)
 	result, err := condition.Evaluate(task.When, whenCtx)
 	if err != nil {
 		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
@@ -223,13 +231,13 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 	executed := 0
 	skippedByCondition := 0
 
-	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.BabfilePath, task.Line)
+	taskVars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.sourceOf(task), task.Line)
 	if err != nil {
 		return err
 	}
 	taskVars = maps.Clone(taskVars)
 
-	taskCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, task.Line)
+	taskCtx := interpolate.NewContextWithLocation(taskVars, r.sourceOf(task), task.Line)
 
 	taskEnv, err := r.interpolateEnv(babfile.MergeEnvMaps(r.GlobalEnv, task.Env), taskCtx)
 	if err != nil {
@@ -250,7 +258,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 			continue
 		}
 
-		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task.Name, i+1); err != nil {
+		if shouldSkip, err := r.shouldSkipRunItem(item, taskVars, task, i+1); err != nil {
 			return err
 		} else if shouldSkip {
 			skippedByCondition++
@@ -259,7 +267,7 @@ func (r *Runner) executeTask(ctx context.Context, task *babfile.Task, tasks babf
 
 		switch v := item.(type) {
 		case babfile.PromptRun:
-			promptCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+			promptCtx := interpolate.NewContextWithLocation(taskVars, r.sourceOf(task), v.Line)
 
 			interpolated, err := interpolatePrompt(v, promptCtx)
 			if err != nil {
@@ -320,7 +328,7 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 		return fmt.Errorf("task %q has an empty command", task.Name)
 	}
 
-	cmdCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, v.Line)
+	cmdCtx := interpolate.NewContextWithLocation(taskVars, r.sourceOf(task), v.Line)
 	interpolatedCmd, err := interpolate.Interpolate(v.Cmd, cmdCtx)
 	if err != nil {
 		return err
@@ -366,20 +374,20 @@ func (r *Runner) executeCommand(ctx context.Context, v babfile.CommandRun, task
 	return nil
 }
 
-func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, taskName string, index int) (bool, error) {
+func (r *Runner) shouldSkipRunItem(item babfile.RunItem, taskVars map[string]string, task *babfile.Task, index int) (bool, error) {
 	whenCond := item.GetWhen()
 	if whenCond == "" {
 		return false, nil
 	}
 
-	itemCtx := interpolate.NewContextWithLocation(taskVars, r.BabfilePath, item.GetLine())
+	itemCtx := interpolate.NewContextWithLocation(taskVars, r.sourceOf(task), item.GetLine())
 	result, err := condition.Evaluate(whenCond, itemCtx)
 	if err != nil {
-		return false, fmt.Errorf("task %q: run[%d]: evaluating when condition: %w", taskName, index, err)
+		return false, fmt.Errorf("task %q: run[%d]: evaluating when condition: %w", task.Name, index, err)
 	}
 
 	if !result.ShouldRun {
-		log.Debug("Skipping run item", "task", taskName, "index", index, "reason", "when condition", "detail", result.Reason)
+		log.Debug("Skipping run item", "task", task.Name, "index", index, "reason", "when condition", "detail", result.Reason)
 		return true, nil
 	}
 
-- 
2.43.0


From 399744f1b5adbbf018a791a634e83357e0444dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 17/31] fix: report only real circles of tasks

After a circle had been found its tasks stayed marked as being visited, so tasks
leading to it were reported as circular too; and the reported chain could be
overwritten by the search that went on.
---
 internal/parser/validate.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 2daddc3..46ac051 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"slices"
+
 	"github.com/bab-sh/bab/internal/babfile"
 	"github.com/bab-sh/bab/internal/errs"
 )
@@ -119,11 +121,10 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 			switch v := item.(type) {
 			case babfile.TaskRun:
 				if recStack[v.Task] {
-					chain = append(chain, v.Task)
 					verrs.Add(&errs.CircularDepError{
 						Path:  path,
 						Type:  "dependency",
-						Chain: chain,
+						Chain: append(slices.Clone(chain), v.Task),
 					})
 					return
 				}
@@ -139,21 +140,20 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 	dfs = func(name string, chain []string) {
 		visited[name] = true
 		recStack[name] = true
+		defer delete(recStack, name)
 		chain = append(chain, name)
 
 		task := tasks[name]
 		if task == nil {
-			recStack[name] = false
 			return
 		}
 
 		for _, dep := range task.Deps {
 			if recStack[dep] {
-				chain = append(chain, dep)
 				verrs.Add(&errs.CircularDepError{
 					Path:  path,
 					Type:  "dependency",
-					Chain: chain,
+					Chain: append(slices.Clone(chain), dep),
 				})
 				return
 			}
@@ -163,7 +163,6 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 		}
 
 		checkItems(task.Run, chain)
-		recStack[name] = false
 	}
 
 	for name := range tasks {
-- 
2.43.0


From a6b0a6f83c7d3a71b55bbc5d6bcde4cb2625bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 18/31] fix: report mistakes in the same order every time

The tasks, includes, variables and environment were checked in the random order
of a map, so the messages, and which of several mistakes was reported, differed
from run to run.
---
 internal/interpolate/interpolate.go |  4 +++-
 internal/parser/include.go          |  3 ++-
 internal/parser/parser.go           |  5 +++--
 internal/parser/validate.go         | 18 ++++++++++++++----
 internal/runner/runner.go           |  5 +++--
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/internal/interpolate/interpolate.go b/internal/interpolate/interpolate.go
index 45712c8..fd1c4e7 100644
--- a/internal/interpolate/interpolate.go
+++ b/internal/interpolate/interpolate.go
@@ -1,8 +1,10 @@
 package interpolate
 
 import (
+	"maps"
 	"os"
 	"regexp"
+	"slices"
 	"strings"
 
 	"github.com/bab-sh/bab/internal/errs"
@@ -181,7 +183,7 @@ func ResolveVarsWithLocation(vars map[string]string, parentVars map[string]strin
 		return value, nil
 	}
 
-	for name := range vars {
+	for _, name := range slices.Sorted(maps.Keys(vars)) {
 		if _, err := resolveOne(name); err != nil {
 			return nil, err
 		}
diff --git a/internal/parser/include.go b/internal/parser/include.go
index fdbf31c..d976e2a 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -22,7 +22,8 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 		return err
 	}
 
-	for name, task := range result.Tasks {
+	for _, name := range sortedNames(result.Tasks) {
+		task := result.Tasks[name]
 		prefixedName := namespace + ":" + name
 		if tasks.Has(prefixedName) {
 			return &errs.ParseError{Path: incPath, Message: "task name collision: " + prefixedName}
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index d8355de..f1e50a5 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"errors"
+	"maps"
 	"os"
 	"path/filepath"
 	"slices"
@@ -94,8 +95,8 @@ func parseFile(absPath string, visited map[string]bool) (*ParseResult, error) {
 	}
 
 	baseDir := filepath.Dir(absPath)
-	for namespace, inc := range bf.Includes {
-		if err := resolveInclude(namespace, inc.Babfile, baseDir, tasks, visited); err != nil {
+	for _, namespace := range slices.Sorted(maps.Keys(bf.Includes)) {
+		if err := resolveInclude(namespace, bf.Includes[namespace].Babfile, baseDir, tasks, visited); err != nil {
 			return nil, &errs.ParseError{Path: absPath, Message: "include " + namespace + " failed", Cause: err}
 		}
 	}
diff --git a/internal/parser/validate.go b/internal/parser/validate.go
index 46ac051..be7b436 100644
--- a/internal/parser/validate.go
+++ b/internal/parser/validate.go
@@ -16,6 +16,13 @@ func validateAll(path string, tasks babfile.TaskMap) error {
 	return verrs.OrNil()
 }
 
+// sortedNames gives the names in an order that does not change from run to run.
+func sortedNames(tasks babfile.TaskMap) []string {
+	names := tasks.Names()
+	slices.Sort(names)
+	return names
+}
+
 // sourceOf is the file a task is written in, which may be an included one.
 func sourceOf(task *babfile.Task, path string) string {
 	if task != nil && task.SourcePath != "" {
@@ -31,7 +38,8 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 	}
 	aliasToTask := make(map[string]aliasInfo)
 
-	for name, task := range tasks {
+	for _, name := range sortedNames(tasks) {
+		task := tasks[name]
 		for _, alias := range task.GetAllAliases() {
 			if alias == "" {
 				continue
@@ -65,7 +73,8 @@ func validateAliases(path string, tasks babfile.TaskMap, verrs *errs.ValidationE
 }
 
 func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
-	for name, task := range tasks {
+	for _, name := range sortedNames(tasks) {
+		task := tasks[name]
 		for _, dep := range task.Deps {
 			if !tasks.Has(dep) {
 				line := task.DepsLine
@@ -85,7 +94,8 @@ func validateDependencies(path string, tasks babfile.TaskMap, verrs *errs.Valida
 }
 
 func validateRunTaskRefs(path string, tasks babfile.TaskMap, verrs *errs.ValidationErrors) {
-	for name, task := range tasks {
+	for _, name := range sortedNames(tasks) {
+		task := tasks[name]
 		validateRunItemTaskRefs(sourceOf(task, path), name, task.Run, tasks, verrs)
 	}
 }
@@ -165,7 +175,7 @@ func validateRunCycles(path string, tasks babfile.TaskMap, verrs *errs.Validatio
 		checkItems(task.Run, chain)
 	}
 
-	for name := range tasks {
+	for _, name := range sortedNames(tasks) {
 		if !visited[name] {
 			dfs(name, nil)
 		}
diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 9994317..6e163fe 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -9,6 +9,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 
 	"github.com/bab-sh/bab/internal/babfile"
@@ -446,8 +447,8 @@ func (r *Runner) interpolateEnv(env map[string]string, ctx *interpolate.Context)
 	}
 
 	result := make(map[string]string, len(env))
-	for k, v := range env {
-		interpolated, err := interpolate.Interpolate(v, ctx)
+	for _, k := range slices.Sorted(maps.Keys(env)) {
+		interpolated, err := interpolate.Interpolate(env[k], ctx)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 7792d9730a7d4ca8cccb71ea7e8fc2de9a574166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 19/31] fix: do not pass over a Babfile that cannot be looked
 at

A failing stat other than "does not exist" made the search go on in the
parent directory, so that another project's Babfile could be run.
---
 internal/finder/finder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/finder/finder.go b/internal/finder/finder.go
index 149613e..5ace673 100644
--- a/internal/finder/finder.go
+++ b/internal/finder/finder.go
@@ -1,7 +1,9 @@
 package finder
 
 import (
+	"errors"
 	"fmt"
+	"io/fs"
 	"os"
 	"path/filepath"
 
@@ -27,10 +29,14 @@ func FindBabfile() (string, error) {
 	for {
 		for _, filename := range babfileNames {
 			path := filepath.Join(currentDir, filename)
-			if _, err := os.Stat(path); err == nil {
+			_, err := os.Stat(path)
+			if err == nil {
 				log.Debug("Found Babfile", "path", path)
 				return path, nil
 			}
+			if !errors.Is(err, fs.ErrNotExist) {
+				return "", fmt.Errorf("failed to look for a Babfile: %w", err)
+			}
 		}
 
 		parentDir := filepath.Dir(currentDir)
-- 
2.43.0


From cd21b7563a58f21ef7b59baeb5bf41a3180f8f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 20/31] fix: report unfinished lines of parallel items that
 cannot be written

The error of the final flush was dropped: the last line of an item was
lost and bab still exited with status 0.
---
 internal/runner/parallel.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index b637a46..3ffa197 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -2,6 +2,7 @@ package runner
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -197,8 +198,9 @@ func (r *Runner) executeParallelInterleaved(ctx context.Context, pr babfile.Para
 			pwErr := NewPrefixWriter(labels[idx], maxLabelLen, colorForPath([]int{idx}), errDest, &mu, noColor)
 
 			err := r.executeRunItem(ctx, runItem, task, tasks, state, taskVars, taskEnv, overrideSilent, overrideOutput, pw, pwErr, noColor, nil)
-			_ = pw.Flush()
-			_ = pwErr.Flush()
+			if flushErr := errors.Join(pw.Flush(), pwErr.Flush()); err == nil {
+				err = flushErr
+			}
 			if err != nil {
 				firstErrOnce.Do(func() {
 					firstErr = fmt.Errorf("parallel item %q failed: %w", labels[idx], err)
-- 
2.43.0


From 3c02668af5887fed9b16d3ed0e975813d7c6ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 21/31] fix: stop what is running when the terminal goes away

SIGHUP killed bab at once and left its commands, which have process
groups of their own, running. Under nohup it stays ignored.
---
 main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 5fd45f4..9050fe1 100644
--- a/main.go
+++ b/main.go
@@ -33,7 +33,14 @@ func run() int {
 		Level:           log.InfoLevel,
 	}))
 
-	ctx, stop := signal.NotifyContext(context.Background(), os.Interrupt, syscall.SIGTERM)
+	signals := []os.Signal{os.Interrupt, syscall.SIGTERM}
+	if !signal.Ignored(syscall.SIGHUP) {
+		signals = append(signals, syscall.SIGHUP)
+		// A terminal that closes sends more than one: those after the first must not kill.
+		signal.Notify(make(chan os.Signal, 1), syscall.SIGHUP)
+	}
+
+	ctx, stop := signal.NotifyContext(context.Background(), signals...)
 	defer stop()
 
 	go func() {
-- 
2.43.0


From 459158c69869a5615a11e7be7acd9c5828c4e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 22/31] fix: do not die of a broken pipe while parallel items
 are running

bab was killed by SIGPIPE when it relayed a line nobody reads and left
the other items running. The item whose output is lost now fails.
---
 internal/runner/parallel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 3ffa197..341b6f1 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -6,11 +6,13 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"os/signal"
 	"runtime"
 	"slices"
 	"strconv"
 	"strings"
 	"sync"
+	"syscall"
 
 	tea "charm.land/bubbletea/v2"
 	"github.com/bab-sh/bab/internal/babfile"
@@ -174,6 +176,11 @@ func (r *Runner) executeParallelInterleaved(ctx context.Context, pr babfile.Para
 		errDest = parentErr
 	}
 
+	// A reader that goes away must not end bab while its commands are running.
+	brokenPipe := make(chan os.Signal, 1)
+	signal.Notify(brokenPipe, syscall.SIGPIPE)
+	defer signal.Stop(brokenPipe)
+
 	var wg sync.WaitGroup
 	var mu sync.Mutex
 	var firstErr error
-- 
2.43.0


From dd4f425e141cdd3909cc4c188e425a264b19fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 23/31] fix: install.sh could not verify checksums with openssl

The field given to cut was a letter, so that cut failed and nothing was
installed where openssl is the only program that computes checksums.
---
 install.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install.sh b/install.sh
index fe7dd81..80e2b9f 100755
--- a/install.sh
+++ b/install.sh
@@ -316,7 +316,7 @@ hash_sha256() {
     echo "$hash" | cut -d ' ' -f 1
   elif is_command openssl; then
     hash=$(openssl dgst -sha256 "$TARGET") || return 1
-    echo "$hash" | cut -d ' ' -f a
+    echo "${hash##* }"
   else
     log_crit "hash_sha256 unable to find command to compute sha-256 hash"
     return 1
-- 
2.43.0


From 698c2077e2a172ec1288afa9f38dd6e4c94d2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 24/31] fix: install.sh replaces an installed bab in one step

install removes the existing file and writes the new one bit by bit. When
the disk was full or the installer was stopped meanwhile, no bab or a part
of one was left. Write it next to its place and rename it.
---
 install.sh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/install.sh b/install.sh
index 80e2b9f..87ed1d2 100755
--- a/install.sh
+++ b/install.sh
@@ -99,7 +99,10 @@ execute() {
     if [ "$OS" = "windows" ]; then
       binexe="${binexe}.exe"
     fi
-    install "${srcdir}/${binexe}" "${BINDIR}/"
+    staged="${BINDIR}/.${binexe}.$$"
+    install "${srcdir}/${binexe}" "${staged}"
+    mv -f "${staged}" "${BINDIR}/${binexe}"
+    staged=""
     log_info "installed ${BINDIR}/${binexe}"
   done
   rm -rf "${tmpdir}"
-- 
2.43.0


From 1998f22a2397e07d70863eb57301cef58e1b29af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 25/31] fix: install.sh removes its temporary files when it
 fails

The downloads stayed in the temporary directory whenever a download, the
verification or the installation failed or was interrupted.
---
 install.sh | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/install.sh b/install.sh
index 87ed1d2..757e0e9 100755
--- a/install.sh
+++ b/install.sh
@@ -86,8 +86,14 @@ compare_versions() {
   fi
 }
 
+tmpdir=""
+staged=""
+cleanup() {
+  test -z "${staged}" || rm -f "${staged}"
+  test -z "${tmpdir}" || rm -rf "${tmpdir}"
+}
+
 execute() {
-  tmpdir=$(mktemp -d)
   log_debug "downloading files into ${tmpdir}"
   http_download "${tmpdir}/${TARBALL}" "${TARBALL_URL}"
   http_download "${tmpdir}/${CHECKSUM}" "${CHECKSUM_URL}"
@@ -105,7 +111,6 @@ execute() {
     staged=""
     log_info "installed ${BINDIR}/${binexe}"
   done
-  rm -rf "${tmpdir}"
 
   if ! check_path; then
     log_info ""
@@ -287,7 +292,7 @@ http_download() {
 }
 
 http_copy() {
-  tmp=$(mktemp)
+  tmp="${tmpdir}/page"
   http_download "${tmp}" "$1" "$2" || return 1
   body=$(cat "$tmp")
   rm -f "${tmp}"
@@ -400,6 +405,12 @@ uname_arch_check "$ARCH"
 
 parse_args "$@"
 
+trap cleanup EXIT
+trap 'exit 129' HUP
+trap 'exit 130' INT
+trap 'exit 143' TERM
+tmpdir=$(mktemp -d)
+
 BINARIES="${BINARY}"
 tag_to_version
 adjust_format
-- 
2.43.0


From 75b8cf559f9e86454e5e2f4d197ca8b1a458e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 26/31] fix: install.sh took an installed pre-release for the
 release

Only the three numbers of the installed version were compared, so 1.3.0-rc.1
counted as 1.3.0 and was never replaced by it.
---
 install.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install.sh b/install.sh
index 757e0e9..9636d08 100755
--- a/install.sh
+++ b/install.sh
@@ -67,7 +67,7 @@ check_path() {
 
 get_installed_version() {
   if is_command "${BINARY}"; then
-    installed_version=$("${BINARY}" --version 2>/dev/null | grep -oE 'v?[0-9]+\.[0-9]+\.[0-9]+' | head -n1)
+    installed_version=$("${BINARY}" --version 2>/dev/null | grep -oE 'v?[0-9]+\.[0-9]+\.[0-9]+(-[0-9A-Za-z.-]+)?' | head -n1)
     echo "${installed_version}"
   fi
 }
-- 
2.43.0


From 53e7753c1b1242ad47ebcad0adfb17d50fd3f4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 27/31] fix: name the files of a circular include as they
 include one another

---
 internal/parser/include.go |  4 ++--
 internal/parser/parser.go  | 21 +++++++++------------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/internal/parser/include.go b/internal/parser/include.go
index d976e2a..0c5b370 100644
--- a/internal/parser/include.go
+++ b/internal/parser/include.go
@@ -8,7 +8,7 @@ import (
 	"github.com/charmbracelet/log"
 )
 
-func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMap, visited map[string]bool) error {
+func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMap, including []string) error {
 	incPath := babfilePath
 	if !filepath.IsAbs(incPath) {
 		incPath = filepath.Join(baseDir, incPath)
@@ -17,7 +17,7 @@ func resolveInclude(namespace, babfilePath, baseDir string, tasks babfile.TaskMa
 
 	log.Debug("Resolving include", "namespace", namespace, "path", incPath)
 
-	result, err := parseFile(incPath, visited)
+	result, err := parseFile(incPath, including)
 	if err != nil {
 		return err
 	}
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index f1e50a5..be80782 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -34,8 +34,7 @@ func Parse(path string) (*ParseResult, error) {
 		return nil, &errs.ParseError{Path: path, Message: "invalid path", Cause: err}
 	}
 
-	visited := make(map[string]bool)
-	result, err := parseFile(absPath, visited)
+	result, err := parseFile(absPath, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -47,15 +46,14 @@ func Parse(path string) (*ParseResult, error) {
 	return result, nil
 }
 
-func parseFile(absPath string, visited map[string]bool) (*ParseResult, error) {
+func parseFile(absPath string, including []string) (*ParseResult, error) {
 	log.Debug("Parsing babfile", "path", absPath)
 
-	if visited[absPath] {
-		chain := chainFromVisited(visited, absPath)
+	if i := slices.Index(including, absPath); i >= 0 {
+		chain := includeChain(including[i:], absPath)
 		return nil, &errs.CircularDepError{Path: absPath, Type: "include", Chain: chain}
 	}
-	visited[absPath] = true
-	defer delete(visited, absPath)
+	including = append(slices.Clip(including), absPath)
 
 	data, err := os.ReadFile(absPath)
 	if err != nil {
@@ -96,7 +94,7 @@ func parseFile(absPath string, visited map[string]bool) (*ParseResult, error) {
 
 	baseDir := filepath.Dir(absPath)
 	for _, namespace := range slices.Sorted(maps.Keys(bf.Includes)) {
-		if err := resolveInclude(namespace, bf.Includes[namespace].Babfile, baseDir, tasks, visited); err != nil {
+		if err := resolveInclude(namespace, bf.Includes[namespace].Babfile, baseDir, tasks, including); err != nil {
 			return nil, &errs.ParseError{Path: absPath, Message: "include " + namespace + " failed", Cause: err}
 		}
 	}
@@ -126,12 +124,11 @@ func buildAliasMap(tasks babfile.TaskMap) map[string]string {
 	return aliases
 }
 
-func chainFromVisited(visited map[string]bool, current string) []string {
-	chain := make([]string, 0, len(visited)+1)
-	for path := range visited {
+func includeChain(including []string, current string) []string {
+	chain := make([]string, 0, len(including)+1)
+	for _, path := range including {
 		chain = append(chain, filepath.Base(path))
 	}
-	slices.Sort(chain)
 	chain = append(chain, filepath.Base(current))
 	return chain
 }
-- 
2.43.0


From e38cb341349ac4d56669d03bf88d3406561fc46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 28/31] fix: a task's when condition sees the task's own
 variables

---
 internal/runner/runner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/runner/runner.go b/internal/runner/runner.go
index 6e163fe..b1e8d10 100644
--- a/internal/runner/runner.go
+++ b/internal/runner/runner.go
@@ -216,7 +216,11 @@ func (r *Runner) shouldRunTask(name string, task *babfile.Task) (bool, error) {
 		return true, nil
 	}
 
-	whenCtx := interpolate.NewContextWithLocation(r.GlobalVars, r.sourceOf(task), task.Line)
+	vars, err := interpolate.ResolveVarsWithLocation(task.Vars, r.GlobalVars, r.sourceOf(task), task.Line)
+	if err != nil {
+		return false, err
+	}
+	whenCtx := interpolate.NewContextWithLocation(vars, r.sourceOf(task), task.Line)
 	result, err := condition.Evaluate(task.When, whenCtx)
 	if err != nil {
 		return false, fmt.Errorf("task %q: evaluating when condition: %w", name, err)
-- 
2.43.0


From 516e78cb40178e16da4a4ef4695e5bc887d01541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 29/31] fix: look past lines of escape sequences for an item's
 last words

---
 internal/tui/parallel_grouped.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tui/parallel_grouped.go b/internal/tui/parallel_grouped.go
index bc7d6e7..1577716 100644
--- a/internal/tui/parallel_grouped.go
+++ b/internal/tui/parallel_grouped.go
@@ -108,7 +108,7 @@ func (m groupedModel) renderCompactLine(item *itemState, indent string) string {
 
 	snippet := ""
 	for i := len(item.lines) - 1; i >= 0; i-- {
-		if strings.TrimSpace(item.lines[i]) != "" {
+		if strings.TrimSpace(ansi.Strip(item.lines[i])) != "" {
 			snippet = item.lines[i]
 			break
 		}
-- 
2.43.0


From 753d2a213c174cce73eb7c49d90ce88956852a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 30/31] fix: fail when a log item of a parallel block cannot be
 written

---
 internal/runner/parallel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/runner/parallel.go b/internal/runner/parallel.go
index 341b6f1..a446d1d 100644
--- a/internal/runner/parallel.go
+++ b/internal/runner/parallel.go
@@ -380,7 +380,9 @@ func (r *Runner) executeRunItem(ctx context.Context, item babfile.RunItem, task
 		case r.DryRun:
 			log.Info("Would log", "msg", interpolatedLog, "level", v.Level)
 		case stdout != nil:
-			_, _ = fmt.Fprintln(stdout, output.RenderLog(interpolatedLog, v.Level))
+			if _, err := fmt.Fprintln(stdout, output.RenderLog(interpolatedLog, v.Level)); err != nil {
+				return fmt.Errorf("task %q: writing log: %w", task.Name, err)
+			}
 		default:
 			executeLog(babfile.LogRun{Log: interpolatedLog, Level: v.Level})
 		}
-- 
2.43.0


From 0cb3e3c3bbe727f818aef63bc50c921d0b980da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:03 +0000
Subject: [PATCH 31/31] fix: fail when the list of tasks cannot be written

---
 cmd/list.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/list.go b/cmd/list.go
index 3dd3264..cbbb8fe 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -67,9 +67,12 @@ func (c *CLI) runList() error {
 	}
 
 	for _, name := range sortedKeys(root.children) {
-		fmt.Println(buildTree(root.children[name], name).
+		list := buildTree(root.children[name], name).
 			EnumeratorStyle(enumStyle).
-			ItemStyle(itemStyle))
+			ItemStyle(itemStyle)
+		if _, err := fmt.Println(list); err != nil {
+			return fmt.Errorf("failed to write the list: %w", err)
+		}
 	}
 
 	return nil
-- 
2.43.0

