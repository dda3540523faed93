From 428ff1b900581d7c0f07d031f0d0a8f4be52416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 01/29] fix: insert out-of-order samples at the right place

The predicate handed to sort.Search was inverted, so a sample older than the
last one of its series usually landed in the wrong place and the series was no
longer ordered by time.
---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index a282d28..6550582 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -94,7 +94,7 @@ func (s *rangeStorage) LoadData(points []ParsedSeries) error {
 		if needSort {
 			// find the insertion point, shift things forward, and slot in the data point
 			insertionPt := sort.Search(len(block.data)-1, func(ind int) bool {
-				return datapt.timestamp > block.data[ind].timestamp
+				return block.data[ind].timestamp > datapt.timestamp
 			})
 			copy(block.data[insertionPt+1:], block.data[insertionPt:len(block.data)-1])
 			block.data[insertionPt] = datapt
-- 
2.43.0


From 13d33d1ceeeb9ecde489a4deeb4904a88239c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 02/29] fix: do not self-deadlock on matchers that match the
 empty string

The callback of IterValues runs with the postings lock held, so it must not
take that lock again.
---
 promq/prom/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index 6550582..aeca45a 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -199,7 +199,7 @@ func (q *memQuerier) Select(sortSeries bool, hints *storage.SelectHints, matcher
 			// find all the places where this isn't set
 			var withValueSet []index.Postings
 			q.storage.postings.IterValues(matcher.Name, func(val string) {
-				withValueSet = append(withValueSet, q.storage.postings.Get(matcher.Name, val))
+				withValueSet = append(withValueSet, q.storage.postings.UnsafeGet(matcher.Name, val))
 			})
 			matchingVals = append(matchingVals, index.Without(q.storage.postings.All(), index.Merge(withValueSet...)))
 		}
-- 
2.43.0


From a9175d3f2cec49edfb4c8cea19db67a49cc923d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 03/29] fix: make series that were cleaned away queryable again

Clean removed a series without recent samples from the postings only, so later
samples of it were stored but could never be found, its old samples were never
freed, and an empty series made Clean panic.
---
 promq/prom/query.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/promq/prom/query.go b/promq/prom/query.go
index aeca45a..3a34168 100644
--- a/promq/prom/query.go
+++ b/promq/prom/query.go
@@ -111,6 +111,7 @@ func (s *rangeStorage) Clean(olderThan int64) {
 		if len(block.data) == 0 {
 			// oops
 			postingsToClean[ref] = struct{}{}
+			continue
 		}
 		if block.data[0].timestamp >= olderThan {
 			// skip new enough blocks
@@ -130,6 +131,13 @@ func (s *rangeStorage) Clean(olderThan int64) {
 	}
 
 	s.postings.Delete(postingsToClean)
+	// forget the cleaned series altogether: if one of them shows up again it must
+	// get a new reference, since its old one is no longer in the postings
+	for ref := range postingsToClean {
+		lset := s.data[ref].series
+		s.series.del(lset.Hash(), lset)
+		delete(s.data, ref)
+	}
 	/*
 		// first, find the first timestamp newer than our cutoff
 		startKeeps := sort.Search(len(s.knownTimes), func(ind int) bool {
-- 
2.43.0


From 920b29d2f112484fa61afd7cfd779ca1fe6459db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 04/29] fix: return a copy of the stored label values

The caller used the live set without the lock, while scrapes insert into it.
---
 promq/prom/indexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/promq/prom/indexer.go b/promq/prom/indexer.go
index 3d4d76f..f73193b 100644
--- a/promq/prom/indexer.go
+++ b/promq/prom/indexer.go
@@ -108,5 +108,10 @@ func (i *indexer) GetStoredValuesForMetricAndDimension(metricName string, dimens
 	if !ok {
 		return nil
 	}
-	return dimensionForMetric[dimension]
+	values, ok := dimensionForMetric[dimension]
+	if !ok {
+		return nil
+	}
+	// hand out a copy: ours is written to under the lock
+	return sets.StringKeySet(values)
 }
-- 
2.43.0


From a5e1b3aea54e2389efeb58de3c30d5237d51bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 05/29] fix: read the current query under its lock

SetQuery may be called from the prompt while a scrape executes the query.
---
 promq/prom/multi.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 7f5d474..9aedea9 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -102,10 +102,14 @@ func (q *PeriodicData) Scrape(ctx context.Context) error {
 }
 
 func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallback) error {
+	q.queryMu.RLock()
+	queryString := q.Query
+	q.queryMu.RUnlock()
+
 	var query promql.Query
 	if q.Times.Instant {
 		var err error
-		query, err = q.engine.NewInstantQuery(q.storage, q.Query, time.Now())
+		query, err = q.engine.NewInstantQuery(q.storage, queryString, time.Now())
 		if err != nil {
 			return fmt.Errorf("unable to construct instant query: %w", err)
 		}
@@ -113,7 +117,7 @@ func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallb
 		var err error
 		end := time.Now()
 		start := time.Now().Add(time.Duration(-1) * q.Times.Window)
-		query, err = q.engine.NewRangeQuery(q.storage, q.Query, start, end, q.Times.Interval)
+		query, err = q.engine.NewRangeQuery(q.storage, queryString, start, end, q.Times.Interval)
 		if err != nil {
 			return fmt.Errorf("unable to construct range query: %w", err)
 		}
-- 
2.43.0


From 08ee5d97127597b272c1d527a6a7b505b5c5e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 06/29] fix: support subqueries without an explicit step

They were accepted by SetQuery, but executing them failed on a nil function.
---
 promq/prom/multi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 9aedea9..8016f87 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -138,5 +138,9 @@ func DefaultEngineOptions(timeout time.Duration, maxSamples int) promql.EngineOp
 		Timeout:    timeout, // why? why is this here? THIS IS WHAT CONTEXT IS FOR!
 		MaxSamples: maxSamples,
 		// TODO(sollyross): anything else
+
+		// the engine calls this for subqueries without a step (`foo[5m:]`), use
+		// the default evaluation interval of Prometheus
+		NoStepSubqueryIntervalFn: func(int64) int64 { return time.Minute.Milliseconds() },
 	}
 }
-- 
2.43.0


From 485085b47ebfd45ea380024e6b1f03395263f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 07/29] fix: treat non-200 replies as failed scrapes

An error page that is empty or happens to parse was taken for metrics.
---
 cmd/metrics/metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 320ff55..1d3a649 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -110,6 +110,10 @@ func (s *httpSource) ScrapePrometheusEndpoint(ctx context.Context, nowish time.T
 	}
 	defer resp.Body.Close()
 
+	if resp.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("unable to fetch raw metrics data: server returned HTTP status %s", resp.Status)
+	}
+
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, fmt.Errorf("unable to read metrics response body: %w", err)
-- 
2.43.0


From 55c5db189650055f90f8549e7d6eba906775c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 08/29] fix: scrape periodically only while the chart is shown

The periodic scrape was started before the callback it calls was set (a nil
function call if the first period ended sooner), it also ran in one-shot mode,
where it could print a second result, and it was never stopped.
---
 cmd/metrics/metrics.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index 1d3a649..c582139 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -182,9 +182,6 @@ func (c *MetricsCommand) Run(flags cli.PromQFlags) error {
 		Instant:  !flags.Continuous,
 	}
 
-	// asyncronously trigger scrape
-	go c.scrape(ctx, runner)
-
 	//c := NewPromQLCompleter(index)
 	if flags.Continuous {
 		// it's valid, let's try drawing
@@ -430,6 +427,11 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 	}
 
 	ctx, stopScreen := context.WithCancel(ctx)
+	defer stopScreen()
+
+	// asynchronously trigger scrapes, now that there is something to show them
+	go c.scrape(ctx, runner)
+
 	go promptView.Run(ctx, &qs, stopScreen)
 
 	if err := termRunner.Run(ctx, makeView(promptView, nil, nil, 10)); err != nil {
-- 
2.43.0


From bb30641c2e58a212dce2c2000a760903b0288bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 09/29] fix: report failures to write the output

A full disk or a closed pipe made the command print part of the result, or
nothing, and exit successfully.
---
 cmd/metrics/metrics.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index c582139..de406e3 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -206,8 +206,8 @@ func (c *MetricsCommand) Run(flags cli.PromQFlags) error {
 			if err != nil {
 				return err
 			}
-			c.Fprintf("%s\n", *o)
-			return nil
+			_, err = fmt.Fprintf(c.Streams.Out, "%s\n", *o)
+			return err
 		}
 		// trigger a scrape
 		if err := runner.Scrape(ctx); err != nil {
@@ -255,7 +255,9 @@ func (c *MetricsCommand) outputMetricNames(metrics []prom.ParsedSeries) error {
 	}
 	// iterate through a sorted list of our set (our output is deterministic).
 	for _, n := range metricNames.List() {
-		c.Fprintf("--%v\n", n)
+		if _, err := fmt.Fprintf(c.Streams.Out, "--%v\n", n); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From cbdf2d7cd9b034828c98fbd6a11d9514e550b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 10/29] fix: report a terminal that cannot be initialised

The error of Init was dropped, so Run went on with a screen that was never
set up, waiting for events that could not come.
---
 promq/term/runner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 3793a9c..162a589 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -85,7 +85,9 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 			return err
 		}
 	}
-	screen.Init()
+	if err := screen.Init(); err != nil {
+		return err
+	}
 	// TODO(directxman12): we should probably figure out how to call Fini in a
 	// defer but before the waiting for the evtLoopDone
 
-- 
2.43.0


From 6bc6d14028e6d74bddb514930d042ed91991ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 11/29] fix: do not lose or choke on requests to repaint or
 update

The screen drops events when its queue is full, so a burst of requests (or of
keys) made requested views, repaints and resizes disappear: the display stayed
at an older view, or at a box of another size, until something else happened.
Requests made before Run had set up the screen crashed with a nil pointer.
Keep what was requested in the runner and pick it up after every event.
---
 promq/term/runner.go | 110 +++++++++++++++++++++++++++++--------------
 1 file changed, 75 insertions(+), 35 deletions(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 162a589..570459b 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -54,6 +54,12 @@ type Runner struct {
 	screen tcell.Screen
 	screenMu sync.Mutex
 
+	// requestedView is the latest requested view that the event loop has not
+	// picked up yet, if any, and paintRequested says whether a paint was
+	// requested since the event loop last painted.  Both are under screenMu.
+	requestedView View
+	paintRequested bool
+
 	// KeyHandler receives key events produced during Run.  It must be specified.
 	KeyHandler func(*tcell.EventKey)
 	
@@ -96,13 +102,36 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 	r.screenMu.Unlock()
 
 	mainView := initialView
-
-	// paint one initial time in case we don't get the immediate resize event
-	if mainView != nil {
+	var boxCols, boxRows int
+
+	// paint picks up what was requested, and paints if that, the size of the
+	// screen, or the caller says that there's a need to.
+	paint := func(force bool) {
+		newView, requested := r.takeRequest()
+		if newView != nil {
+			mainView = newView
+		}
+		if mainView == nil {
+			return
+		}
+		screenCols, screenRows := screen.Size()
+		if force || newView != nil || screenCols != boxCols || screenRows != boxRows {
+			// clearing is less efficient, but means we
+			// don't get weird artifacts from the sidebar resizing, etc
+			screen.Clear()
+			mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
+			boxCols, boxRows = screenCols, screenRows
+		} else if !requested {
+			return
+		}
 		mainView.FlushTo(screen)
 		screen.Show()
 	}
 
+	// paint one initial time in case we don't get the immediate resize event,
+	// or had requests before there was a screen
+	paint(true)
+
 	evtLoopDone := make(chan struct{})
 	go func() {
 		defer close(evtLoopDone)
@@ -110,37 +139,22 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 			r.OnStart()
 		}
 		for evt := screen.PollEvent(); evt != nil; evt = screen.PollEvent() {
-			screenCols, screenRows := screen.Size()
+			resized := false
 			switch evt := evt.(type) {
 			case *tcell.EventKey:
 				r.KeyHandler(evt)
-				continue
 			case *tcell.EventInterrupt:
-				newView, hasNewView := evt.Data().(View)
-				if hasNewView {
-					// clearing is less efficient, but means we
-					// don't get weird artifacts from the sidebar resizing, etc
-					screen.Clear()
-					mainView = newView
-					mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
-				}
-				// continue below
+				// just here to wake us up
 			case *tcell.EventResize:
-				screenCols, screenRows = evt.Size()
-				if mainView != nil {
-					mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
-				}
-				screen.Clear()
-				// continue below
+				resized = true
 			default:
 				return
 			}
 
-			if mainView == nil {
-				continue
-			}
-			mainView.FlushTo(screen)
-			screen.Show()
+			// NB: check for requests after *every* event -- the screen
+			// drops events when its queue is full, so there might not be
+			// one for each request (or resize)
+			paint(resized)
 		}
 	}()
 
@@ -156,22 +170,44 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 	return nil
 }
 
-// RequestRepaint requests a repaint of the current view, if any.
-// It will not block.
-func (r *Runner) RequestRepaint() {
+// takeRequest returns the latest requested view, if there's a new one, and
+// whether any paint was requested at all.
+func (r *Runner) takeRequest() (newView View, requested bool) {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.PostEvent(tcell.NewEventInterrupt(nil))
+	newView, requested = r.requestedView, r.paintRequested
+	r.requestedView, r.paintRequested = nil, false
+	return newView, requested
 }
 
-// RequestRepaint replaces the current view & requests a paint of it.
-// It will not block.
-func (r *Runner) RequestUpdate(newView View) {
+// request records a request for the event loop & wakes it up.
+func (r *Runner) request(newView View) {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.PostEvent(tcell.NewEventInterrupt(newView))
+	if newView != nil {
+		r.requestedView = newView
+	}
+	r.paintRequested = true
+
+	// if there's no screen yet, Run will check once there is, and if the queue
+	// is full, there's still an event coming to make the event loop check
+	if r.screen != nil {
+		r.screen.PostEvent(tcell.NewEventInterrupt(nil))
+	}
+}
+
+// RequestRepaint requests a repaint of the current view, if any.
+// It will not block.
+func (r *Runner) RequestRepaint() {
+	r.request(nil)
+}
+
+// RequestUpdate replaces the current view & requests a paint of it.
+// It will not block.
+func (r *Runner) RequestUpdate(newView View) {
+	r.request(newView)
 }
 
 // ShowCursor shows the cursor at the given location.
@@ -179,12 +215,16 @@ func (r *Runner) ShowCursor(col, row int) {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.ShowCursor(col, row)
+	if r.screen != nil {
+		r.screen.ShowCursor(col, row)
+	}
 }
 // HideCursor hides the cursor.
 func (r *Runner) HideCursor() {
 	r.screenMu.Lock()
 	defer r.screenMu.Unlock()
 
-	r.screen.HideCursor()
+	if r.screen != nil {
+		r.screen.HideCursor()
+	}
 }
-- 
2.43.0


From bb8024d1c1ad74a74b772bae790fbfcf44410704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 12/29] fix: do not display the prompt before it is set up

The chart was shown while the prompt was still being set up concurrently, so
the first paint (or an early key) could find a prompt without reader and writer
and crash.
---
 cmd/metrics/metrics.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/metrics/metrics.go b/cmd/metrics/metrics.go
index de406e3..05289f8 100644
--- a/cmd/metrics/metrics.go
+++ b/cmd/metrics/metrics.go
@@ -324,6 +324,8 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 		}
 	}
 
+	promptReady := make(chan struct{})
+
 	var axesMu sync.Mutex
 	lastAxes := plot.AutoAxes()
 
@@ -369,6 +371,9 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 			// don't draw a graph now -- we'll draw it on the next update via the callback
 			return &msg, false
 		},
+		OnSetup: func() {
+			close(promptReady)
+		},
 	}
 
 	termRunner := &term.Runner{
@@ -436,6 +441,9 @@ func (c *MetricsCommand) runInteractiveChart(ctx context.Context, runner *prom.P
 
 	go promptView.Run(ctx, &qs, stopScreen)
 
+	// the prompt can't be displayed or receive keys until it's set up
+	<-promptReady
+
 	if err := termRunner.Run(ctx, makeView(promptView, nil, nil, 10)); err != nil {
 		return err
 	}
-- 
2.43.0


From 4ab528e349d31887d2922930d10623c1c6ad94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 13/29] fix: stop the prompt when its context is closed

The input loop kept waiting for input forever after the end, and once it had
stopped reading the 31st key blocked the runner's event loop, which then never
finished: quitting while typing could hang.
---
 promq/term/prompt.go     | 18 ++++++++++++++++--
 promq/term/withprompt.go | 23 +++++++++++++++--------
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index fec64ad..6a6227f 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -148,6 +148,8 @@ type screenParser struct {
 	// NB(directxman12): go-prompt assumes shortcut keys and things like enter come in on their
 	// own event, so we send keys individually and collapse non-newline runes in read inline
 	evts chan *tcell.EventKey
+	// done is closed once nobody is interested in further input.
+	done <-chan struct{}
 	leftOvers []byte
 	mu sync.Mutex
 }
@@ -176,6 +178,14 @@ func (p *screenParser) Resize(size *prompt.WinSize) {
 }
 
 func (p *screenParser) Read() ([]byte, error) {
+	select {
+	case <-p.done:
+		// there's no way to ask go-prompt to stop waiting for input, except
+		// by submitting what it has so far
+		return []byte{'\r'}, nil
+	default:
+	}
+
 	// check if we had accumulated some normal bytes and then hit a newline or
 	// special key
 	if p.leftOvers != nil {
@@ -231,12 +241,16 @@ CollapseLoop:
 }
 
 func (p *screenParser) AddKey(evt *tcell.EventKey) {
-	p.evts <- evt
+	select {
+	case p.evts <- evt:
+	case <-p.done:
+		// nobody's going to read this
+	}
 }
 
 func (p *screenParser) AddString(str string) {
 	for _, rn := range str {
-		p.evts <- tcell.NewEventKey(tcell.KeyRune, rn, 0)
+		p.AddKey(tcell.NewEventKey(tcell.KeyRune, rn, 0))
 	}
 }
 
diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index 7244e04..fa9d5e9 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -88,6 +88,7 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 	}
 	v.reader = &screenParser{
 		evts: make(chan *tcell.EventKey, 30),
+		done: ctx.Done(),
 	}
 	viewPrompt := v.SetupPrompt(prompt.OptionParser(v.reader), prompt.OptionWriter(v.writer))
 	start := make(chan struct{})
@@ -102,18 +103,22 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 		v.OnSetup()
 	}
 
+	inputLoopDone := make(chan struct{})
 	go func() {
-		<-start
-		for {
-			select {
-			case <-ctx.Done():
-				return
-			default:
-			}
-
+		defer close(inputLoopDone)
+		select {
+		case <-start:
+		case <-ctx.Done():
+			return
+		}
+		for ctx.Err() == nil {
 			// grumble grumple can't handle resize cleanly without also
 			// allowing go-prompt to call os.Exit grumble grumble
 			input := viewPrompt.Input()
+			if ctx.Err() != nil {
+				// we were interrupted, this wasn't actually submitted
+				return
+			}
 			output, stop := v.HandleInput(input)
 			if output != nil {
 				v.writer.WriteStr(*output)
@@ -133,6 +138,8 @@ func (v *PromptView) Run(ctx context.Context, initialInput *string, shutdownScre
 	}
 
 	<-ctx.Done()
+	// like the runner, don't leave the input loop behind
+	<-inputLoopDone
 
 	if err := ctx.Err(); !errors.Is(err, context.Canceled) {
 		return err
-- 
2.43.0


From 7825e9fa055a317a6fcbdabee7176968ed572355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 14/29] fix: only repaint for requests and resizes

Looking at the size of the screen after every other event as well repaints
without being asked to.
---
 promq/term/runner.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 570459b..333e924 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -104,14 +104,14 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 	mainView := initialView
 	var boxCols, boxRows int
 
-	// paint picks up what was requested, and paints if that, the size of the
-	// screen, or the caller says that there's a need to.
+	// paint picks up what was requested, and paints if anything was, or if the
+	// caller says that there's a need to.
 	paint := func(force bool) {
 		newView, requested := r.takeRequest()
 		if newView != nil {
 			mainView = newView
 		}
-		if mainView == nil {
+		if mainView == nil || !(force || requested) {
 			return
 		}
 		screenCols, screenRows := screen.Size()
@@ -121,8 +121,6 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 			screen.Clear()
 			mainView.SetBox(PositionBox{Cols: screenCols, Rows: screenRows})
 			boxCols, boxRows = screenCols, screenRows
-		} else if !requested {
-			return
 		}
 		mainView.FlushTo(screen)
 		screen.Show()
-- 
2.43.0


From af71512c8cac6ccec216a720b3f5117a49b7a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 15/29] fix: keep the text cursor inside its box

A box that got narrower left the cursor (of go-prompt, which sizes its moves for
the old box and moves backwards by negative amounts) outside of it, and erasing
the rest of the line then panicked.  So did wide characters in a box too narrow
for them.
---
 promq/term/prompt.go  |  5 +----
 promq/term/wrapper.go | 39 +++++++++++++++++++++++++++++----------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 6a6227f..3992e54 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -72,10 +72,7 @@ func (w *cellWriter) SetBox(box PositionBox) {
 
 	w.startCol = box.StartCol
 	w.startRow = box.StartRow
-	w.text.rows = box.Rows
-	w.text.cols = box.Cols
-
-	w.text.buf.Resize(box.Cols, box.Rows)
+	w.text.Resize(box.Cols, box.Rows)
 }
 
 func (w *cellWriter) WriteRaw(data []byte) {
diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 2f7e70c..22afe4e 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -39,6 +39,25 @@ func (t *textWrapper) Resize(cols, rows int) {
 	t.cols = cols
 	t.rows = rows
 	t.buf.Resize(cols, rows)
+	t.clampCursor()
+}
+
+// clampCursor moves the cursor back to the closest position inside the widget.
+// Note that after writing to the last column of a line, the cursor stays *past*
+// the last column till something else is written.
+func (t *textWrapper) clampCursor() {
+	if t.cursorRow >= t.rows {
+		t.cursorRow = t.rows-1
+	}
+	if t.cursorRow < 0 {
+		t.cursorRow = 0
+	}
+	if t.cursorCol > t.cols {
+		t.cursorCol = t.cols
+	}
+	if t.cursorCol < 0 {
+		t.cursorCol = 0
+	}
 }
 
 // Reset clears the contents of the widget and moves the cursor back to (0, 0).
@@ -56,7 +75,7 @@ func (t *textWrapper) Newline() {
 	t.cursorRow++
 	t.cursorCol = 0
 	if t.cursorRow >= t.rows {
-		t.cursorRow = t.rows-1
+		t.clampCursor()
 		t.ScrollDown()
 	}
 }
@@ -117,6 +136,10 @@ func (t *textWrapper) WriteString(str string, sty tcell.Style) {
 // If the runes would be too wide to contain the given content, this will wrap
 // to the next line.
 func (t *textWrapper) writeNextCell(width int, runes []rune, sty tcell.Style) {
+	if width > t.cols {
+		// there's no place to put this, even after wrapping
+		return
+	}
 	if remaining := t.cols - t.cursorCol; remaining < width {
 		// wrap if needed
 		t.Newline()
@@ -246,15 +269,14 @@ func (t *textWrapper) CursorForward(n int) {
 	if t.cursorCol >= t.cols {
 		t.cursorCol = t.cols-1
 	}
+	t.clampCursor() // n might be negative
 }
 
 // CursorForward moves the cursor forward n columns, stopping at
 // the last column of the wrapper.
 func (t *textWrapper) CursorBackward(n int) {
 	t.cursorCol -= n
-	if t.cursorCol < 0 {
-		t.cursorCol = 0
-	}
+	t.clampCursor() // n might be negative
 }
 
 // CursorPosition reports the column and row of the cursor.
@@ -266,19 +288,16 @@ func (t *textWrapper) CursorPosition() (col, row int) {
 func (t *textWrapper) CursorGoTo(row, col int) {
 	t.cursorRow = row
 	t.cursorCol = col
+	t.clampCursor()
 }
 
 // CursorDown moves the cursor down n rows, stopping at the bottom of wrapper.
 func (t *textWrapper) CursorDown(n int) {
 	t.cursorRow += n
-	if t.cursorRow >= t.rows {
-		t.cursorRow = t.rows-1
-	}
+	t.clampCursor()
 }
 // CursorUp moves the cursor up n rows, stopping at the top of wrapper.
 func (t *textWrapper) CursorUp(n int) {
 	t.cursorRow -= n
-	if t.cursorRow < 0 {
-		t.cursorRow = 0
-	}
+	t.clampCursor()
 }
-- 
2.43.0


From b404579ad5b2f766cfff0b7fa1a68e0ca7d6a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 16/29] fix: scroll up all lines

The loop condition was inverted: nothing was moved, or the loop practically did
not end for up to two rows.
---
 promq/term/wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 22afe4e..5100269 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -214,7 +214,7 @@ func (t *textWrapper) ScrollUp() {
 	}
 
 	// otherwise, move all the lines down one row...
-	for r := t.rows-2; r <= 0; r-- {
+	for r := t.rows-2; r >= 0; r-- {
 		for c := 0; c < t.cols; c++ {
 			mainRune, combRunes, style, _ := t.buf.GetContent(c, r)
 			t.buf.SetContent(c, r+1, mainRune, combRunes, style)
-- 
2.43.0


From a2aa4cfa4fbe91fec72945bb731576f54451caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 17/29] fix: read the prompt's position under its lock

The event loop moves the prompt while go-prompt shows the cursor.
---
 promq/term/prompt.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 3992e54..0527147 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -101,8 +101,22 @@ func (w *cellWriter) EraseScreen() {
 	w.Erase()
 }
 func (w *cellWriter) ShowCursor() {
-	cursorCol, cursorRow := w.CursorPosition()
-	w.screen.ShowCursor(w.startCol+cursorCol, w.startRow+cursorRow)
+	w.textMu.Lock()
+	startCol, startRow := w.startCol, w.startRow
+	cols, rows := w.text.cols, w.text.rows
+	cursorCol, cursorRow := w.text.CursorPosition()
+	w.textMu.Unlock()
+
+	if cols < 1 || rows < 1 {
+		// there's no place for a cursor
+		w.screen.HideCursor()
+		return
+	}
+	if cursorCol >= cols {
+		// waiting to wrap
+		cursorCol = cols-1
+	}
+	w.screen.ShowCursor(startCol+cursorCol, startRow+cursorRow)
 }
 func (w *cellWriter) HideCursor() {
 	w.screen.HideCursor()
-- 
2.43.0


From fcd998992311610b6abc668e1d8084b205f5abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 18/29] fix: always stop adding ticks to the range axis

The increment was negative for a constant negative series, and vanished next to
large values, so ticks were added till memory ran out.  Also, the domain ticks
of a very short domain were far outside of it.
---
 promq/term/plot/axes.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/promq/term/plot/axes.go b/promq/term/plot/axes.go
index 95469d6..836cbd1 100644
--- a/promq/term/plot/axes.go
+++ b/promq/term/plot/axes.go
@@ -92,7 +92,7 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 
 		platDomInc := (graph.DomainMax - graph.DomainMin)/domTicksBase
 		if platDomInc == 0 {
-			platDomInc = graph.DomainMax // just two ticks
+			numTicks = 1 // just two ticks, min and max
 		}
 		platDomTicks = make([]int64, numTicks)
 		for i := range platDomTicks {
@@ -117,10 +117,12 @@ func EvenlySpacedTicks(graph *PlatonicGraph, outerSize ScreenSize, scale TickSca
 		if platRngInc == 0 {
 			platRngInc = graph.RangeMax // just two ticks
 		}
-		if platRngInc == 0 { // in case (graph.RangeMax - graph.RangeMin) == 0
+		if platRngInc <= 0 { // in case (graph.RangeMax - graph.RangeMin) == 0
 			platRngInc = 1
 		}
-		for x := graph.RangeMin; x <= graph.RangeMax; x += platRngInc {
+		// NB: don't just rely on x getting past the maximum -- next to a large
+		// enough x, the increment vanishes
+		for x := graph.RangeMin; x <= graph.RangeMax && len(platRngTicks) <= int(rngTicksBase); x += platRngInc {
 			platRngTicks = append(platRngTicks, x)
 		}
 		// always put a tick @ max
-- 
2.43.0


From f7f7b3206e232ca03205538239b5fb26e581620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 19/29] fix: do not crash on values that cannot be plotted

NaN and infinite values (say, of a division by zero), and series without any
other points, were mapped to cells that don't exist.
---
 promq/term/plot/plot.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/promq/term/plot/plot.go b/promq/term/plot/plot.go
index 7779c87..5092fdf 100644
--- a/promq/term/plot/plot.go
+++ b/promq/term/plot/plot.go
@@ -103,6 +103,9 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 
 			for _, pt := range pts {
 				val := pt.Y()
+				if !isPlottable(val) {
+					continue
+				}
 				if val < res.RangeMin {
 					res.RangeMin = val
 				}
@@ -116,6 +119,24 @@ func DataToPlatonicGraph(seriesSet SeriesSet, baseAxes PlatonicAxes) *PlatonicGr
 	return res
 }
 
+// isPlottable checks if there's a place for the given value on a range axis.
+func isPlottable(val float64) bool {
+	return !math.IsNaN(val) && !math.IsInf(val, 0)
+}
+
+// toCell converts the given position to a cell in [0, count), picking
+// the closest cell if it's out of bounds.
+func toCell(pos float64, count int) int {
+	pos = math.Round(pos)
+	if pos > float64(count-1) {
+		return count-1
+	}
+	if pos >= 0 {
+		return int(pos)
+	}
+	return 0 // negative, or NaN from a scale factor that under- or overflowed
+}
+
 func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize) (func(int64) Column, func(float64) Row) {
 	// since the valid values for rows are [0, Rows), subtract one to make sure
 	// that g.DomainMax --> Rows-1 < Rows, and similarly for cols
@@ -134,10 +155,10 @@ func (g PlatonicGraph) ScalePlatonicToScreen(scale RangeScale, size ScreenSize)
 
 	// TODO: is this rounding necessary for most data?
 	domain := func(x int64) Column {
-		return Column(math.Round(float64(x-g.DomainMin)*domainScaleFactor))
+		return Column(toCell(float64(x-g.DomainMin)*domainScaleFactor, int(size.Cols)))
 	}
 	rng := func(y float64) Row {
-		return Row(math.Round(float64(scale(y-g.RangeMin))*rangeScaleFactor))
+		return Row(toCell(float64(scale(y-g.RangeMin))*rangeScaleFactor, int(size.Rows)))
 	}
 
 	return domain, rng
@@ -162,6 +183,9 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 
 		for _, inPoint := range inSeries.Points() {
 			inX, inY := inPoint.X(), inPoint.Y()
+			if !isPlottable(inY) {
+				continue
+			}
 
 			col, row := domain(inX), rng(inY)
 			if lastPt != nil {
@@ -185,7 +209,7 @@ func (g *PlatonicGraph) ToScreen(scale RangeScale, size ScreenSize) *ScreenGraph
 		}
 
 		// handle the very last point
-		if len(lastPt.OriginalPoints) > 1 {
+		if lastPt != nil && len(lastPt.OriginalPoints) > 1 {
 			lastPt.Row /= Row(len(lastPt.OriginalPoints))
 		}
 
-- 
2.43.0


From a915e03cf36854bf9c2c322adad4a26c2ee35dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 20/29] fix: parse the rest when the input covers what was
 parsed before

The number of tokens to skip was always zero, which means that there's nothing
to do, so completing an expression after an incomplete string (say, a label
value with a space) crashed.
---
 promq/autocomplete/earley/luthor.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/promq/autocomplete/earley/luthor.go b/promq/autocomplete/earley/luthor.go
index 4820971..8347ada 100644
--- a/promq/autocomplete/earley/luthor.go
+++ b/promq/autocomplete/earley/luthor.go
@@ -63,7 +63,6 @@ func (ws Tokens) Last() Tokhan {
 }
 
 func (ws Tokens) Compare(tks2 Tokens) int {
-	i := 0
 	for i, t := range ws {
 		// return positive i if ws and tks2 have partial overlap
 		if i >= len(tks2) || !t.equals(tks2[i]) {
@@ -72,7 +71,7 @@ func (ws Tokens) Compare(tks2 Tokens) int {
 	}
 	// return negative i if tks2 covers ws
 	if len(tks2) > len(ws) {
-		return 0 - i
+		return 0 - len(ws)
 	}
 	// return 0 if they are equal
 	return 0
-- 
2.43.0


From 80817d4fb54adc237601ff4b789eb53d17b7b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 21/29] fix: forget the previous words when parsing anew

They were kept in front of the new ones, although the chart was for the new ones
only: going back to an earlier expression gave the suggestions for another one.
---
 promq/autocomplete/earley/earley.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index 82a6af1..bd4c673 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -140,6 +140,7 @@ func (p *Earley) Parse(input string) *earleyChart {
 
 // ParseTokens parses the full input tokens from beginning
 func (p *Earley) ParseTokens(tokens Tokens) *earleyChart {
+	p.words = nil
 	p.chart.resetChartBeforeIndex(0)
 	p.PartialParse(tokens, 0)
 	debug.Debugf("------\n%v\n------\n", p.chart.String())
-- 
2.43.0


From 9294014044caf729537d1bc12be789e62ac11248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 22/29] fix: do not crash on input without any token

For instance, `"a b` does not have one till the string is closed.
---
 promq/autocomplete/earley/earley.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/promq/autocomplete/earley/earley.go b/promq/autocomplete/earley/earley.go
index bd4c673..95c1bd8 100644
--- a/promq/autocomplete/earley/earley.go
+++ b/promq/autocomplete/earley/earley.go
@@ -185,12 +185,13 @@ func (p *Earley) PartialParse(tokens Tokens, chartIndex int) *earleyChart {
 }
 
 func (p *Earley) GetSuggestedTokenType(tokens Tokens) (types []ContextualToken) {
-	lastTokenPos := len(tokens) - 1
-	if lastTokenPos < 0 {
-		lastTokenPos = 0
+	if len(tokens) == 0 {
+		// not even an end of the input, so there's nothing valid to suggest
+		return nil
 	}
+	lastTokenPos := len(tokens) - 1
 
-	if p.words == nil || len(p.words) == 0 || len(tokens) == 0 || !p.words[0].equals(tokens[0]) {
+	if p.words == nil || len(p.words) == 0 || !p.words[0].equals(tokens[0]) {
 		p.ParseTokens(tokens)
 	} else {
 		result := p.words.Compare(tokens)
-- 
2.43.0


From 160287fccd9a26b4ad74d366e7b9442611eb12d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 23/29] fix: complete input with characters outside of ASCII

Runes were indexed by byte, which crashed, and the display width was taken for a
number of bytes.
---
 cmd/metrics/autocompleter.go           |  5 +++--
 promq/autocomplete/earley/completer.go | 15 +++------------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/cmd/metrics/autocompleter.go b/cmd/metrics/autocompleter.go
index b6e6114..c96a7ba 100644
--- a/cmd/metrics/autocompleter.go
+++ b/cmd/metrics/autocompleter.go
@@ -37,10 +37,11 @@ func NewCompleter(completor autocomplete.PromQLCompleter) *Completer {
 }
 
 func (c *Completer) Complete(d prompt.Document) []prompt.Suggest {
-	if d.TextBeforeCursor() == "" {
+	textBeforeCursor := d.TextBeforeCursor()
+	if textBeforeCursor == "" {
 		return []prompt.Suggest{}
 	}
-	ret := c.promCompleter.GenerateSuggestions(d.Text, d.DisplayCursorPosition())
+	ret := c.promCompleter.GenerateSuggestions(d.Text, len(textBeforeCursor))
 	suggests := make([]prompt.Suggest, len(ret))
 	for i, s := range ret {
 		suggests[i] = prompt.Suggest{Text: s.GetValue(), Description: s.GetDetail()}
diff --git a/promq/autocomplete/earley/completer.go b/promq/autocomplete/earley/completer.go
index b0d3f6a..a07d99f 100644
--- a/promq/autocomplete/earley/completer.go
+++ b/promq/autocomplete/earley/completer.go
@@ -152,16 +152,7 @@ func (c *promQLCompleter) GenerateSuggestions(query string, pos int) []autocompl
 }
 
 func getPrefix(query string) string {
-	if len(query) == 0 {
-		return ""
-	}
-	for i := len(query) - 1; i >= 0; i-- {
-		c := []rune(query)[i]
-		if strings.ContainsRune(PromQLTokenSeparators, c) {
-			// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
-			// Should we return metric_a as a prefix or return the next suggested token of metric name?
-			return query[i+1:]
-		}
-	}
-	return query
+	// Todo(yuchen): what if the input is sum(metric_a and metric_a is the completed metric name?
+	// Should we return metric_a as a prefix or return the next suggested token of metric name?
+	return query[strings.LastIndexAny(query, PromQLTokenSeparators)+1:]
 }
-- 
2.43.0


From 58bef5943c542e5e28fe4303f1359c5334deaad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:04 +0000
Subject: [PATCH 24/29] fix: do not make go-prompt divide by zero in an area
 without columns

A split with a percentage cap can leave the prompt no column at all.  go-prompt
draws nothing then, but divides by the number of columns when the line is
submitted.
---
 promq/term/withprompt.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/promq/term/withprompt.go b/promq/term/withprompt.go
index fa9d5e9..73bed6e 100644
--- a/promq/term/withprompt.go
+++ b/promq/term/withprompt.go
@@ -60,7 +60,12 @@ func (v *PromptView) SetBox(box PositionBox) {
 	v.pos = box
 	if v.reader != nil && v.writer != nil {
 		v.writer.SetBox(box)
-		v.reader.Resize(&prompt.WinSize{Row: uint16(box.Rows), Col: uint16(box.Cols)})
+		cols := box.Cols
+		if cols < 1 {
+			// go-prompt divides by the number of columns
+			cols = 1
+		}
+		v.reader.Resize(&prompt.WinSize{Row: uint16(box.Rows), Col: uint16(cols)})
 	}
 
 	if v.start != nil {
-- 
2.43.0


From 666a52305c37c81372e90d25fab460243ed8cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:04 +0000
Subject: [PATCH 25/29] fix: do not draw half of a wide character outside of
 the area

When a text area got narrower, a wide character in what is now its last column
was drawn over the first column of its neighbour.
---
 promq/term/wrapper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/promq/term/wrapper.go b/promq/term/wrapper.go
index 5100269..3893d32 100644
--- a/promq/term/wrapper.go
+++ b/promq/term/wrapper.go
@@ -154,7 +154,12 @@ func (t *textWrapper) FlushTo(screen tcell.Screen, startCol, startRow int) {
 			if !t.buf.Dirty(col, row) {
 				continue
 			}
-			mainRune, combRunes, style, _ := t.buf.GetContent(col, row)
+			mainRune, combRunes, style, width := t.buf.GetContent(col, row)
+			if col+width > t.cols {
+				// got cut in half by a resize, don't draw the other half
+				// outside of our area
+				mainRune, combRunes = ' ', nil
+			}
 			screen.SetContent(startCol+col, startRow+row, mainRune, combRunes, style)
 		}
 	}
-- 
2.43.0


From afe428fd994b130571ce8f9d66511f61a42c40a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 26/29] fix: move the cursor along with the prompt's area

The cursor was only placed when go-prompt asked for it, so after a resize
of the terminal it stayed at its old absolute position, outside of the
prompt, until the next key.
---
 promq/term/prompt.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/promq/term/prompt.go b/promq/term/prompt.go
index 0527147..0620f61 100644
--- a/promq/term/prompt.go
+++ b/promq/term/prompt.go
@@ -61,6 +61,10 @@ type cellWriter struct {
 	// and current visual state (cursor, etc) for the prompt.
 	text textWrapper
 
+	// cursorShown is whether go-prompt currently wants the cursor to be
+	// visible.  It's under textMu, too.
+	cursorShown bool
+
 	// currentStyle contains the current style that go-prompt & WriteStr
 	// will use to write to the underlying textWrapper.
 	currentStyle tcell.Style
@@ -73,6 +77,10 @@ func (w *cellWriter) SetBox(box PositionBox) {
 	w.startCol = box.StartCol
 	w.startRow = box.StartRow
 	w.text.Resize(box.Cols, box.Rows)
+	if w.cursorShown {
+		// go-prompt only shows it on input, but it has to move with the box
+		w.placeCursor()
+	}
 }
 
 func (w *cellWriter) WriteRaw(data []byte) {
@@ -102,10 +110,17 @@ func (w *cellWriter) EraseScreen() {
 }
 func (w *cellWriter) ShowCursor() {
 	w.textMu.Lock()
-	startCol, startRow := w.startCol, w.startRow
+	defer w.textMu.Unlock()
+
+	w.cursorShown = true
+	w.placeCursor()
+}
+
+// placeCursor moves the screen's cursor to our cursor.  It must be called
+// under textMu, so that the cursor doesn't end up where the box used to be.
+func (w *cellWriter) placeCursor() {
 	cols, rows := w.text.cols, w.text.rows
 	cursorCol, cursorRow := w.text.CursorPosition()
-	w.textMu.Unlock()
 
 	if cols < 1 || rows < 1 {
 		// there's no place for a cursor
@@ -116,9 +131,13 @@ func (w *cellWriter) ShowCursor() {
 		// waiting to wrap
 		cursorCol = cols-1
 	}
-	w.screen.ShowCursor(startCol+cursorCol, startRow+cursorRow)
+	w.screen.ShowCursor(w.startCol+cursorCol, w.startRow+cursorRow)
 }
 func (w *cellWriter) HideCursor() {
+	w.textMu.Lock()
+	defer w.textMu.Unlock()
+
+	w.cursorShown = false
 	w.screen.HideCursor()
 }
 func (w *cellWriter) AskForCPR() {
-- 
2.43.0


From 4eef5696f3ec88a27de9e57356b453a4aee2a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 27/29] fix: evaluate range queries up to the current time

The start of the range was based on a second, slightly later time than its
end.  When they were not in the same millisecond the last step fell beyond
the end, and the latest round was missing from the result.
---
 promq/prom/multi.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/promq/prom/multi.go b/promq/prom/multi.go
index 8016f87..6f8b866 100644
--- a/promq/prom/multi.go
+++ b/promq/prom/multi.go
@@ -116,7 +116,9 @@ func (q *PeriodicData) ManuallyExecuteQuery(ctx context.Context, cb ResultsCallb
 	} else {
 		var err error
 		end := time.Now()
-		start := time.Now().Add(time.Duration(-1) * q.Times.Window)
+		// the steps count from the start, so the last one is only at the end
+		// (i.e. sees the latest data) if both are derived from the same time
+		start := end.Add(time.Duration(-1) * q.Times.Window)
 		query, err = q.engine.NewRangeQuery(q.storage, queryString, start, end, q.Times.Interval)
 		if err != nil {
 			return fmt.Errorf("unable to construct range query: %w", err)
-- 
2.43.0


From 2b7ff5e84ef82318ac1ba3540499fdcf7d11badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 28/29] fix: index series whose labels hash the same as others'

---
 promq/prom/indexer.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/promq/prom/indexer.go b/promq/prom/indexer.go
index f73193b..f68a23b 100644
--- a/promq/prom/indexer.go
+++ b/promq/prom/indexer.go
@@ -36,31 +36,36 @@ type indexer struct {
 	metricNameMu sync.RWMutex
 	// let's just be super inefficient
 	store map[string]map[string]sets.String
-	// metric bloom filter
-	metricBloomFilter sets.Uint64
 }
 
 func NewIndex() Indexer {
 	return &indexer{
-		metricNameMu:      sync.RWMutex{},
-		metricBloomFilter: sets.Uint64{},
-		store:             map[string]map[string]sets.String{},
+		metricNameMu: sync.RWMutex{},
+		store:        map[string]map[string]sets.String{},
 	}
 }
 
-func (i *indexer) isMetricPresent(hash uint64) bool {
-	// check our metricBloomFilter and abort if unnecessary
+// isMetricPresent checks if we already know about everything in the given
+// labels.  The hash of the labels won't do for that, it may well be the same
+// for different labels.
+func (i *indexer) isMetricPresent(ls labels.Labels) bool {
 	i.metricNameMu.RLock()
 	defer i.metricNameMu.RUnlock()
-	return i.metricBloomFilter.Has(hash)
+	dimensions, ok := i.store[ls.Get(labels.MetricName)]
+	if !ok {
+		return false
+	}
+	for _, l := range ls {
+		if l.Name != labels.MetricName && !dimensions[l.Name].Has(l.Value) {
+			return false
+		}
+	}
+	return true
 }
 
 func (i *indexer) UpdateMetric(m ParsedSeries) {
-	hash := m.Labels.Hash()
 	// abort if we don't need to store this parsed series.
-	// note: we don't care about collisions, this is functionally
-	// a bloom filter.
-	if i.isMetricPresent(hash) {
+	if i.isMetricPresent(m.Labels) {
 		return
 	}
 	ls := m.Labels.Map()
@@ -71,8 +76,6 @@ func (i *indexer) UpdateMetric(m ParsedSeries) {
 	}
 	i.metricNameMu.Lock()
 	defer i.metricNameMu.Unlock()
-	// next time we will know that
-	i.metricBloomFilter.Insert(hash)
 	if _, ok := i.store[n]; !ok {
 		i.store[n] = map[string]sets.String{}
 	}
-- 
2.43.0


From 8fe2072be38c8811c88e757339bea7b583ae8fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 29/29] fix: keep the event loop running on events it does not
 handle

---
 promq/term/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/promq/term/runner.go b/promq/term/runner.go
index 333e924..31252dd 100644
--- a/promq/term/runner.go
+++ b/promq/term/runner.go
@@ -146,7 +146,8 @@ func (r *Runner) Run(ctx context.Context, initialView View) error {
 			case *tcell.EventResize:
 				resized = true
 			default:
-				return
+				// nothing for us (e.g. mouse reports, if some other program
+				// left those enabled)
 			}
 
 			// NB: check for requests after *every* event -- the screen
-- 
2.43.0

