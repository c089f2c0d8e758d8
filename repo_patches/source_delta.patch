From 3598932c546c57f8b4fe4a234a7a02aa243d63e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 01/39] fix: keep the slide/fade entrance of a frame that exits
 with a cut or a fade

A frame entered through a crossfade/zoom/push whose own transition is a cut
(or, after a push, a crossfade) lost its entrance, leaving a blank canvas
while its predecessor left.
---
 src/animation/animator.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index f3a4ddb..dac2862 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -945,6 +945,12 @@ function composedBoundaryNeeded(entrance: EntranceKind, exit: ExitKind): boolean
   // A dolly ENTRANCE composed with a slide EXIT: zoom → push/scroll. The old
   // slide branch faded (dropping the scale dolly).
   if (entrance === "dolly" && exit === "slide") return true;
+  // A slide ENTRANCE composed with a fade EXIT (push → crossfade), and any
+  // moving/fading ENTRANCE composed with a cut EXIT (crossfade → cut, push →
+  // cut): the crossfade/cut branch drops the slide, and for a cut exit drops the
+  // fade too, so the predecessor left a blank canvas before this frame popped in.
+  if (entrance === "slide" && exit === "fade") return true;
+  if ((entrance === "fade" || entrance === "dolly" || entrance === "slide") && exit === "cut") return true;
   return false;
 }
 
-- 
2.43.0


From 882196f892925a53efe55784400cc9c35d370680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 02/39] fix: hold the last frame solid when its exit ends the
 timeline

With loopFade, a trailing hidden stop at 100% replaced the opacity:1 stop of a
slide/cut/reveal exit, fading the frame across its whole hold.
---
 src/animation/animator.ts | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index dac2862..2118f44 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1010,9 +1010,12 @@ function emitComposedFrame(
   } else {
     opacityStops.push(`${enterNum.toFixed(3)}% { opacity: 1; }`);
   }
-  if (holdToEnd) {
+  // A zero-length exit has no window to fade across (equal stops would collapse
+  // and wash the hold out), and an exit that ends the timeline has no room for a
+  // trailing hidden stop — both just hold solid until they end.
+  if (holdToEnd || (transNum >= 100 && !(exit.kind === "fade" && transNum > holdNum))) {
     opacityStops.push(`100% { opacity: 1; }`);
-  } else if (exit.kind === "fade") {
+  } else if (exit.kind === "fade" && transNum > holdNum) {
     // Crossfade/zoom/shine exit: hold, then dissolve out over the trans window.
     opacityStops.push(`${holdNum.toFixed(3)}% { opacity: 1; }`);
     opacityStops.push(`${transNum.toFixed(3)}% { opacity: ${exit.opacityTo ?? 0}; }`);
@@ -2813,6 +2816,12 @@ function slideKeyframes(
     .f-${i} { animation: fv-${i} ${totalSec.toFixed(2)}s infinite, fd-${i} ${totalSec.toFixed(2)}s infinite step-end; }
     .fp-${i} { animation: fp-${i} ${totalSec.toFixed(2)}s infinite; }`;
   }
+  // A slide-out that ends the timeline has no room for a trailing hidden stop: at
+  // 100% it would replace the `opacity: 1` one and wash the whole hold out.
+  const fvExit = parseFloat(transEndPct) >= 100
+    ? `${transEndPct} { opacity: 1; }`
+    : `${transEndPct} { opacity: 1; }
+      ${padAfter(parseFloat(transEndPct), KEYFRAME_EPSILON.slide, 2)}%, 100% { opacity: 0; }`;
   return `
     @keyframes fp-${i} {
       0%, ${enterBound}% { transform: ${enterT}; }
@@ -2823,8 +2832,7 @@ function slideKeyframes(
     }
     @keyframes fv-${i} {
       ${fvEnter}
-      ${transEndPct} { opacity: 1; }
-      ${padAfter(parseFloat(transEndPct), KEYFRAME_EPSILON.slide, 2)}%, 100% { opacity: 0; }
+      ${fvExit}
     }${buildDisplayKeyframes(`fd-${i}`, visStart, visEnd, totalSec)}
     .f-${i} { animation: fv-${i} ${totalSec.toFixed(2)}s infinite, fd-${i} ${totalSec.toFixed(2)}s infinite step-end; }
     .fp-${i} { animation: fp-${i} ${totalSec.toFixed(2)}s infinite; }`;
-- 
2.43.0


From 045f0ed989eea212e3bd5442a115cd5ce740c11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 03/39] fix: treat a zero-length transition as a cut

Equal keyframe stops stretched its motion over the neighbouring hold.
---
 src/animation/animator.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 2118f44..4feccdb 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -873,6 +873,14 @@ interface ComposedExit {
   origin?: { x: number; y: number };
 }
 
+/** A frame's normalized hand-off. A zero-length transition is a cut whatever its
+ *  type: it has no window to animate across, and equal keyframe stops would
+ *  otherwise stretch its motion over the neighbouring hold. */
+function boundaryPlan(frame: AnimationFrame): NormalizedTransitionPlan {
+  const transition = frame.transition ?? { type: "crossfade" as const, duration: DEFAULT_TRANSITION_MS };
+  return normalizeTransition(transitionDurationMs(frame) === 0 ? { type: "cut", duration: 0 } : transition);
+}
+
 /** Classify a frame's ENTRANCE from the previous frame's transition type. A push/
  *  scroll predecessor slides the incoming in; a crossfade/shine fades it in; a
  *  zoom dollies it in (a fade + scale); a wipe/iris/… reveals it on top; a cut /
@@ -1479,7 +1487,7 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
     const frame = frames[i];
     const transDur = transitionDurationMs(frame);
     const transType = frame.transition?.type ?? "crossfade";
-    const transitionPlan = normalizeTransition(frame.transition ?? { type: "crossfade", duration: DEFAULT_TRANSITION_MS });
+    const transitionPlan = boundaryPlan(frame);
 
     const startPct = pct(timeOffset, totalDuration);
     const holdEndPct = pct(timeOffset + frame.duration, totalDuration);
@@ -1487,7 +1495,7 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
 
     const prevFrame = i > 0 ? frames[i - 1] : null;
     const prevType = prevFrame?.transition?.type;
-    const prevPlan = prevFrame == null ? undefined : normalizeTransition(prevFrame.transition ?? { type: "crossfade", duration: DEFAULT_TRANSITION_MS });
+    const prevPlan = prevFrame == null ? undefined : boundaryPlan(prevFrame);
     // DM-1414: a frame's ENTRANCE is driven by the PREVIOUS frame's transition
     // type (how it hands off TO this frame), independently of this frame's OWN
     // type (how it exits TO the next). So a push/scroll frame entered from a
-- 
2.43.0


From 672ebb998b5763df5b00665dd320e5cd6ee2cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:50 +0000
Subject: [PATCH 04/39] fix: make a chunked scroll take exactly its declared
 time

---
 src/scroll/executor.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 47692bc..61b0526 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -431,9 +431,10 @@ export async function executeScrollPattern(
       const chunkDestY = op.axis === "y"
         ? (isLast ? op.destY : snap0.scrollY + dir * ci * viewportSize)
         : op.destY;
-      const chunkDur = isLast
-        ? op.durationMs - Math.round(op.durationMs * (ci - 1) / numChunks)
-        : Math.round(op.durationMs / numChunks);
+      // Difference of rounded cumulative times, so the chunks always sum to
+      // exactly the action's duration.
+      const chunkDur = (isLast ? op.durationMs : Math.round(op.durationMs * ci / numChunks))
+        - Math.round(op.durationMs * (ci - 1) / numChunks);
       const segStart = sceneTime;
       await scrollTo(page, selector, chunkDestX, chunkDestY, chunkDur);
       sceneTime += chunkDur;
-- 
2.43.0


From 4c2481b645604a3c91936bca08453fbc5cbd0fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 05/39] fix: let an upward until-loop run to its target

---
 src/scroll/executor.ts | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 61b0526..8f220a4 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -527,11 +527,16 @@ async function runWithMaybeUntil(
   // stops precisely 1000px from the bottom instead of one action-magnitude past
   // the target. (The resolver's page-bounds clamp still applies underneath.)
   let prevSnap: PageStateSnapshot | null = null;
+  let direction: number | null = null;   // which way the target lay when the loop began
   const MAX_ITER = 1000;   // hard upper bound on `until <position>` loops
   for (let i = 0; i < MAX_ITER; i++) {
     checkTimeout();
     const snap = await pageQuery.snapshot();
-    if (await isUntilConditionMet(until, snap, pageQuery)) break;
+    const axis = untilAxis(until);
+    const target = await resolveAbsoluteTarget(until.target, axis, pageQuery, snap);
+    const cur = axis === "x" ? snap.scrollX : snap.scrollY;
+    direction ??= Math.sign(target - cur);
+    if (isUntilConditionMet(cur, target, direction)) break;
     if (prevSnap != null && snap.scrollX === prevSnap.scrollX && snap.scrollY === prevSnap.scrollY) {
       // No progress between iterations — bail to avoid an infinite loop. Unlike
       // the timeout path (which throws), an `until` that can't make progress is
@@ -541,9 +546,6 @@ async function runWithMaybeUntil(
       break;
     }
     prevSnap = snap;
-    const axis = untilAxis(until);
-    const target = await resolveAbsoluteTarget(until.target, axis, pageQuery, snap);
-    const cur = axis === "x" ? snap.scrollX : snap.scrollY;
     await bodyOnce(clampScrollToTarget(runOp, axis, cur, target));
   }
 }
@@ -584,20 +586,13 @@ function untilAxis(until: PositionUntil): ScrollAxis {
   return "y";
 }
 
-async function isUntilConditionMet(
-  until: UntilClause,
-  snap: PageStateSnapshot,
-  pageQuery: PageQuery,
-): Promise<boolean> {
-  if (until.kind === "count") return false;   // handled separately
-  const axis = untilAxis(until);
-  const target = await resolveAbsoluteTarget(until.target, axis, pageQuery, snap);
-  const cur = axis === "x" ? snap.scrollX : snap.scrollY;
-  // Condition is "we've reached or passed the target in the natural direction
-  // of motion". Inferring the natural direction: positive if target > cur at
-  // the loop's start. For the common case (scroll down until bottom), this
-  // means cur >= target stops the loop.
-  return Math.abs(cur - target) < 0.5 || (target > 0 && cur >= target) || (target < 0 && cur <= target);
+/**
+ * "We've reached the target, or passed it in the natural direction of motion",
+ * where that direction is the side the target lay on when the loop began:
+ * scrolling down until `cur >= target`, scrolling up until `cur <= target`.
+ */
+function isUntilConditionMet(cur: number, target: number, direction: number): boolean {
+  return Math.abs(cur - target) < 0.5 || (direction > 0 && cur >= target) || (direction < 0 && cur <= target);
 }
 
 async function runAction(
-- 
2.43.0


From 9eebe1123df2236248b382fd831e2d4d90cfd483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 06/39] fix: keep the scroll speed when an until target
 shortens a scroll

---
 src/scroll/executor.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 8f220a4..0270b29 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -282,6 +282,8 @@ interface ResolvedScrollOp {
   destX: number;
   destY: number;
   durationMs: number;
+  /** Present when the duration follows from a speed rather than being declared. */
+  paced?: { from: number; pxPerSec: number };
   easing?: Easing;
 }
 interface ResolvedPauseOp {
@@ -570,7 +572,12 @@ function clampScrollToTarget(
       let capped = dest;
       if (dest > cur && target >= cur) capped = Math.min(dest, target);
       else if (dest < cur && target <= cur) capped = Math.max(dest, target);
-      if (capped !== dest) op = axis === "x" ? { ...op, destX: capped } : { ...op, destY: capped };
+      if (capped !== dest) {
+        // A shortened scroll keeps its speed, not its original duration.
+        const durationMs = op.paced == null ? op.durationMs
+          : Math.round((Math.abs(capped - op.paced.from) / op.paced.pxPerSec) * 1000);
+        op = axis === "x" ? { ...op, destX: capped, durationMs } : { ...op, destY: capped, durationMs };
+      }
     }
     return runOp(op);
   };
@@ -607,7 +614,11 @@ async function runAction(
   }
   const snap = await pageQuery.snapshot();
   const resolved = await resolveScrollAction(a, pageQuery, snap, defaultSpeed);
-  await runOp({ kind: "scroll", axis: resolved.axis, destX: resolved.destX, destY: resolved.destY, durationMs: resolved.scrollDurationMs, easing: resolved.easing });
+  const paced = a.durationMs != null ? undefined : {
+    from: resolved.axis === "x" ? snap.scrollX : snap.scrollY,
+    pxPerSec: a.speedPxPerSec ?? defaultSpeed,
+  };
+  await runOp({ kind: "scroll", axis: resolved.axis, destX: resolved.destX, destY: resolved.destY, durationMs: resolved.scrollDurationMs, paced, easing: resolved.easing });
 }
 
 // ── Playwright I/O ─────────────────────────────────────────────────────────
-- 
2.43.0


From 205c17863e6858801a53c8e6d220807ec6436c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 07/39] fix: resolve selector anchors against the inner
 scroller being scrolled

---
 src/scroll/executor.ts | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 0270b29..823d0f2 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -170,7 +170,7 @@ export interface SelectorBbox {
 export interface PageQuery {
   /** Snapshot the current scroll position + maximum scrollable extents. */
   snapshot(): Promise<PageStateSnapshot>;
-  /** Bbox of an element matching the CSS selector, in document coordinates. */
+  /** Bbox of an element matching the CSS selector, in the scroll owner's content coordinates. */
   selectorBbox(css: string): Promise<SelectorBbox | null>;
 }
 
@@ -646,12 +646,22 @@ function realPageQuery(page: Page, selector: string | null): PageQuery {
       }, selector);
     },
     async selectorBbox(css: string): Promise<SelectorBbox | null> {
-      return page.evaluate((sel) => {
+      return page.evaluate(({ sel, scroller }) => {
         const el = document.querySelector(sel);
         if (el == null) return null;
         const r = el.getBoundingClientRect();
+        // An inner scroller's positions count from its own content origin.
+        const box = scroller == null ? null : document.querySelector(scroller);
+        if (box != null) {
+          const b = box.getBoundingClientRect();
+          return {
+            x: r.left - b.left - box.clientLeft + box.scrollLeft,
+            y: r.top - b.top - box.clientTop + box.scrollTop,
+            width: r.width, height: r.height,
+          };
+        }
         return { x: r.left + window.scrollX, y: r.top + window.scrollY, width: r.width, height: r.height };
-      }, css);
+      }, { sel: css, scroller: selector });
     },
   };
 }
-- 
2.43.0


From 8a396351397778896a9a5f9d8847dc0d574bf5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:55 +0000
Subject: [PATCH 08/39] fix: trim keeps each property's own stops, stepped
 values, delays and SMIL end states

Slicing a @keyframes rule interpolated step-end values at the span edges and took
values of properties absent from the neighbouring keyframe; re-basing dropped the
animations' own delays and fills; SMIL animations already running at the span start
replayed from their beginning at the wrong time, and frozen end states were lost.
---
 docs/56-svg-scrubber.md |   2 +-
 src/scrubber/trim.ts    | 138 ++++++++++++++++++++++++++++------------
 2 files changed, 97 insertions(+), 43 deletions(-)

diff --git a/docs/56-svg-scrubber.md b/docs/56-svg-scrubber.md
index 0884909..5fe5e18 100644
--- a/docs/56-svg-scrubber.md
+++ b/docs/56-svg-scrubber.md
@@ -106,7 +106,7 @@ selected `[in, out]` window** — for both CSS and SMIL. `src/scrubber/trim.ts`
    `calcMode="discrete"`).
 2. **Scheduled animations** (a short `<animate begin="1.85s" dur="0.5s">` ripple,
    or any non-period CSS animation):
-   - CSS: re-based by a negative time shift — `animation-delay: -t0` +
+   - CSS: re-based by a negative time shift from its own delay — `animation-delay: -t0` +
      `animation-fill-mode: both` (DM-1045) — so it fires at the right offset.
    - SMIL: re-timed to RE-FIRE every loop. A ripple landing inside the window
      gets a self-referencing syncbase `begin="Δs; id.begin+winS"` /
diff --git a/src/scrubber/trim.ts b/src/scrubber/trim.ts
index 7918897..57efa82 100644
--- a/src/scrubber/trim.ts
+++ b/src/scrubber/trim.ts
@@ -49,6 +49,10 @@ function num(n: number): string {
   if (Number.isInteger(n)) return String(n);
   return n.toFixed(4).replace(/0+$/, "").replace(/\.$/, "");
 }
+/** SMIL keyTimes are fractions of the run: a long run needs more digits than `num`. */
+function keyTime(f: number): string {
+  return String(Math.round(f * 1e6) / 1e6);
+}
 function secs(ms: number): string {
   const s = num(ms / 1000);
   return `${s === "" || s === "-0" ? "0" : s}s`;
@@ -145,36 +149,45 @@ function parseKeyframes(body: string): CssFrame[] {
   return frames;
 }
 
-/** Decls are discrete (snap) when the property is non-interpolatable; we detect
- *  this lazily per-property in `cssStateAt` via the lerp-skeleton check. */
-function cssStateAt(frames: CssFrame[], f: number): Map<string, string> {
-  if (frames.length === 0) return new Map();
-  if (f <= frames[0].at) return new Map(frames[0].decls);
-  if (f >= frames[frames.length - 1].at) return new Map(frames[frames.length - 1].decls);
-  let lo = frames[0], hi = frames[frames.length - 1];
-  for (let i = 0; i < frames.length - 1; i++) {
-    if (frames[i].at <= f && f <= frames[i + 1].at) { lo = frames[i]; hi = frames[i + 1]; break; }
-  }
-  const t = hi.at > lo.at ? (f - lo.at) / (hi.at - lo.at) : 0;
-  const out = new Map<string, string>();
-  for (const p of new Set([...lo.decls.keys(), ...hi.decls.keys()])) {
-    const a = lo.decls.get(p), b = hi.decls.get(p);
-    if (a != null && b != null) out.set(p, lerpValue(a, b, t) ?? a); // lerp, else snap to lo
-    else out.set(p, (a ?? b)!);
-  }
-  return out;
+/** Progress within a segment at input progress `x`: steps hold, everything else
+ *  is taken as linear (the documented boundary approximation). */
+function segmentProgress(timing: string, x: number): number {
+  return timing === "step-end" ? 0 : timing === "step-start" ? 1 : x;
 }
 
-function sliceKeyframesBody(body: string, f0: number, f1: number): string {
+const TIMING_PROP = "animation-timing-function";
+
+/** Slice a `@keyframes` body to `[f0, f1]`. Every property is a channel of its
+ *  own (a keyframe need not list them all); the boundary stops take the value
+ *  the channel has there — held, not interpolated, inside a stepped segment. */
+function sliceKeyframesBody(body: string, f0: number, f1: number, ruleTiming: string): string {
   const frames = parseKeyframes(body);
   if (frames.length === 0) return body;
   const span = f1 - f0;
   if (!(span > 0)) return body;
-  const stops: { at: number; decls: Map<string, string> }[] = [{ at: 0, decls: cssStateAt(frames, f0) }];
-  for (const fr of frames) if (fr.at > f0 && fr.at < f1) stops.push({ at: (fr.at - f0) / span, decls: fr.decls });
-  stops.push({ at: 1, decls: cssStateAt(frames, f1) });
   const byPct = new Map<number, Map<string, string>>();
-  for (const s of stops) byPct.set(Math.round(s.at * 1e5) / 1e3, s.decls);
+  const put = (at: number, prop: string, value: string, timing: string): void => {
+    const pct = Math.round(at * 1e5) / 1e3;
+    const decls = byPct.get(pct) ?? new Map<string, string>();
+    byPct.set(pct, decls.set(prop, value));
+    if (timing !== ruleTiming) decls.set(TIMING_PROP, timing);
+  };
+  for (const prop of new Set(frames.flatMap((fr) => [...fr.decls.keys()]))) {
+    if (prop === TIMING_PROP) continue;
+    const stops = frames.filter((fr) => fr.decls.has(prop))
+      .map((fr) => ({ at: fr.at, value: fr.decls.get(prop)!, timing: fr.decls.get(TIMING_PROP) ?? ruleTiming }));
+    // Segment `i` runs from stops[i] to stops[i + 1]; -1 / last = before / after all stops.
+    const segAt = (f: number): number => { let i = -1; while (i + 1 < stops.length && stops[i + 1].at <= f) i++; return i; };
+    const valueIn = (f: number): string => {
+      const i = segAt(f);
+      const lo = stops[Math.max(0, i)], hi = stops[i + 1];
+      if (i < 0 || hi == null) return lo.value;
+      return lerpValue(lo.value, hi.value, segmentProgress(lo.timing, (f - lo.at) / (hi.at - lo.at))) ?? lo.value;
+    };
+    put(0, prop, valueIn(f0), stops[Math.max(0, segAt(f0))].timing);
+    for (const s of stops) if (s.at > f0 && s.at < f1) put((s.at - f0) / span, prop, s.value, s.timing);
+    put(1, prop, valueIn(f1), ruleTiming);
+  }
   return [...byPct.entries()].sort((a, b) => a[0] - b[0])
     .map(([pct, decls]) => `${pct}% { ${[...decls.entries()].map(([k, v]) => `${k}: ${v}`).join("; ")} }`)
     .join(" ");
@@ -195,16 +208,25 @@ function splitTopLevel(s: string): string[] {
   return out;
 }
 
+const ANIMATION_RE = /(?<![\w-])animation\s*:\s*([^;}"]+)/g;
 const TIME_RE = /(-?\d*\.?\d+)(ms|s)\b/;
+const TIMING_RE = /^(?:linear|ease|ease-in|ease-out|ease-in-out|step-start|step-end|(?:cubic-bezier|steps|linear)\(.*\))$/;
 
-interface CssAnim { seg: string; name: string | null; durMs: number | null; infinite: boolean }
+interface CssAnim { seg: string; name: string | null; durMs: number | null; delayMs: number; infinite: boolean; timing: string; fill: string }
 
 function parseCssAnims(value: string, keyframeNames: Set<string>): CssAnim[] {
   return splitTopLevel(value).map((seg) => {
     const name = [...keyframeNames].find((n) => new RegExp(`(^|\\s)${n}(\\s|$)`).test(seg.trim())) ?? null;
     const tm = TIME_RE.exec(seg);
     const durMs = tm ? (tm[2] === "ms" ? parseFloat(tm[1]) : parseFloat(tm[1]) * 1000) : null;
-    return { seg, name, durMs, infinite: /\binfinite\b/.test(seg) };
+    const tokens = seg.trim().match(/[^\s(]+(?:\([^)]*\))?/g) ?? [];
+    const delay = tokens.filter((t) => /^-?\d*\.?\d+m?s$/.test(t))[1];
+    return {
+      seg, name, durMs, infinite: /\binfinite\b/.test(seg),
+      delayMs: delay != null ? parseClockMs(delay) ?? 0 : 0,
+      timing: tokens.find((t) => t !== name && TIMING_RE.test(t)) ?? "ease",
+      fill: tokens.find((t) => t !== name && /^(?:forwards|backwards|both)$/.test(t)) ?? "none",
+    };
   });
 }
 
@@ -221,7 +243,6 @@ export function trimAnimatedSvg(svgMarkup: string, startMs: number, endMs: numbe
   const f0 = t0 / period;
   const f1 = Math.min(1, t1 / period);
   const isPeriod = (durMs: number | null): boolean => durMs != null && Math.abs(durMs - period) <= Math.max(4, period * 0.02);
-  const negT0 = secs(-t0);
   const winSec = secs(win);
 
   // Collect @keyframes names.
@@ -233,12 +254,15 @@ export function trimAnimatedSvg(svgMarkup: string, startMs: number, endMs: numbe
   // clean all-period-spanning rule). Mixed rules fall back to re-basing.
   const sliceNames = new Set<string>();
   const rebaseRuleNames = new Set<string>(); // names whose rule is re-based (don't slice)
-  for (const m of svgMarkup.matchAll(/animation\s*:\s*([^;}]+)/g)) {
+  const ruleTiming = new Map<string, string>(); // timing function of the rule that plays each name
+  const isSliceable = (anims: CssAnim[]): boolean =>
+    anims.length > 0 && anims.every((a) => isPeriod(a.durMs) && a.infinite && a.delayMs === 0);
+  for (const m of svgMarkup.matchAll(ANIMATION_RE)) {
     const anims = parseCssAnims(m[1], keyframeNames);
-    const allPeriod = anims.length > 0 && anims.every((a) => isPeriod(a.durMs) && a.infinite);
     for (const a of anims) {
       if (a.name == null) continue;
-      if (allPeriod) sliceNames.add(a.name); else rebaseRuleNames.add(a.name);
+      ruleTiming.set(a.name, a.timing);
+      if (isSliceable(anims)) sliceNames.add(a.name); else rebaseRuleNames.add(a.name);
     }
   }
   for (const n of rebaseRuleNames) sliceNames.delete(n); // a name used by any re-based rule is never sliced
@@ -248,23 +272,25 @@ export function trimAnimatedSvg(svgMarkup: string, startMs: number, endMs: numbe
   // 1. Slice the @keyframes bodies that belong to period-spanning rules.
   out = out.replace(/@keyframes\s+([A-Za-z_][\w-]*)\s*\{((?:[^{}]|\{[^{}]*\})*)\}/g, (full, name: string, body: string) => {
     if (!sliceNames.has(name)) return full;
-    return `@keyframes ${name} {${sliceKeyframesBody(body, f0, f1)}}`;
+    return `@keyframes ${name} {${sliceKeyframesBody(body, f0, f1, ruleTiming.get(name) ?? "ease")}}`;
   });
 
   // 2. Rewrite each `animation` shorthand.
-  out = out.replace(/animation\s*:\s*([^;}]+)/g, (full, value: string) => {
+  out = out.replace(ANIMATION_RE, (full, value: string) => {
     const anims = parseCssAnims(value, keyframeNames);
-    const allPeriod = anims.length > 0 && anims.every((a) => isPeriod(a.durMs) && a.infinite);
-    if (allPeriod) {
+    if (isSliceable(anims)) {
       // Sliced: set each segment's duration to the window length; no delay.
       result.slicedCss++;
       const newVal = splitTopLevel(value).map((seg) => seg.replace(TIME_RE, winSec)).join(",");
       return `animation:${newVal}`;
     }
-    // Re-based: shift the whole rule back by t0 (single delay applies to all
-    // animations in the list) and hold pre/post states.
+    // Re-based: shift each animation of the rule back by t0 from its own delay. A
+    // never-ending one holds its pre/post states; a finite one keeps its own fill.
     result.shiftedCss++;
-    return `${full};animation-delay:${negT0};animation-fill-mode:both`;
+    const uniq = (list: string[]): string => (list.every((v) => v === list[0]) ? list.slice(0, 1) : list).join(",");
+    const delays = uniq(anims.map((a) => secs(a.delayMs - t0)));
+    const fills = uniq(anims.map((a) => (a.infinite && a.delayMs <= 0 ? "both" : a.fill)));
+    return `${full};animation-delay:${delays};animation-fill-mode:${fills}`;
   });
 
   // 3. SMIL: slice period-spanning elements; window-loop / drop the rest.
@@ -300,7 +326,9 @@ function rewriteSmil(
   // PERIOD-SPANNING (looping, dur ≈ period): window-slice the values/keyTimes so
   // it loops EXACTLY the window. (paced/spline carry extra timing data we don't
   // slice — they fall through to the scheduled path.)
-  if (isPeriod(durMs) && looping && values != null && calcMode !== "paced" && calcMode !== "spline") {
+  const beginAttr = attr(tag, "begin");
+  const beginMs = beginAttr == null ? 0 : parseClockMs(beginAttr);
+  if (isPeriod(durMs) && looping && beginMs === 0 && values != null && calcMode !== "paced" && calcMode !== "spline") {
     const vals = values.split(";").map((s) => s.trim());
     const ktAttr = attr(tag, "keyTimes");
     const kt = ktAttr != null
@@ -308,7 +336,7 @@ function rewriteSmil(
       : vals.map((_, i) => (vals.length === 1 ? 0 : i / (vals.length - 1)));
     const sliced = windowStops(vals.map((value, i) => ({ at: kt[i] ?? 0, value })), f0, f1, calcMode === "discrete");
     let t = setAttr(tag, "values", sliced.map((s) => s.value).join(";"));
-    t = setAttr(t, "keyTimes", sliced.map((s) => num(s.at)).join(";"));
+    t = setAttr(t, "keyTimes", sliced.map((s) => keyTime(s.at)).join(";"));
     t = setAttr(t, "dur", winSec);
     t = setAttr(t, "begin", "0s");
     result.slicedSmil++;
@@ -317,12 +345,12 @@ function rewriteSmil(
 
   // SCHEDULED (e.g. a `begin="1.85s" dur="0.5s"` ripple). Re-time it relative to
   // the window and make it RE-FIRE every loop so the windowed export loops.
-  const beginAttr = attr(tag, "begin");
-  const beginMs = beginAttr == null ? 0 : parseClockMs(beginAttr);
   if (beginMs == null) return tag; // event/syncbase begin — leave alone
   const delta = beginMs - t0; // begin time relative to the window start
-  const dur = durMs ?? 0;
+  let dur = durMs ?? 0;
   result.shiftedSmil++;
+  // Never-ending on a clock of its own → keeps running, just re-based.
+  if (repeat === "indefinite") return setAttr(tag, "begin", secs(delta));
   if (delta >= win) return setAttr(tag, "begin", "indefinite"); // fires only after the window → never in the loop
   if (delta + dur <= 0) return setAttr(tag, "begin", secs(delta)); // finished before the window → static (fill=freeze holds end state)
   // Overlaps the window → fire at `delta`, then re-fire every `win`, each
@@ -330,8 +358,34 @@ function rewriteSmil(
   // window). Self-referencing syncbase = a 2-entry begin/end, no long list.
   let id = attr(tag, "id");
   let t = tag;
+  let start = delta;
+  if (!looping && dur > 0 && values != null && calcMode !== "paced" && calcMode !== "spline") {
+    const frozen = attr(tag, "fill") === "freeze";
+    if (delta < 0 || frozen) {
+      const vals = values.split(";").map((s) => s.trim());
+      const kt = attr(tag, "keyTimes")?.split(";").map((s) => parseFloat(s))
+        ?? vals.map((_, i) => calcMode === "discrete" ? i / vals.length : vals.length === 1 ? 0 : i / (vals.length - 1));
+      let stops: Stop[] = vals.map((value, i) => ({ at: kt[i] ?? 0, value }));
+      const last = vals[vals.length - 1];
+      // Already running when the window opens → only its remaining part plays.
+      if (delta < 0) {
+        stops = windowStops(stops, -delta / dur, 1, calcMode === "discrete");
+        dur += delta;
+        start = 0;
+      }
+      // A frozen end state is part of the window too: play on, holding it.
+      if (frozen && win - start > dur) {
+        const k = dur / (win - start);
+        stops = [...stops.map((s) => ({ at: s.at * k, value: s.value })), { at: 1, value: last }];
+        dur = win - start;
+      }
+      t = setAttr(t, "values", stops.map((s) => s.value).join(";"));
+      t = setAttr(t, "keyTimes", stops.map((s) => keyTime(s.at)).join(";"));
+      t = setAttr(t, "dur", secs(dur));
+    }
+  }
   if (id == null) { id = `tw${idCounter.n++}`; t = setAttr(t, "id", id); }
-  t = setAttr(t, "begin", `${secs(delta)}; ${id}.begin+${winSec}`);
+  t = setAttr(t, "begin", `${secs(start)}; ${id}.begin+${winSec}`);
   t = setAttr(t, "end", `${winSec}; ${id}.end+${winSec}`);
   // `fill="remove"` so a clipped instance VANISHES at the loop boundary instead
   // of freezing its mid-animation value into the next loop's pre-fire gap.
-- 
2.43.0


From c04ff7f4e55d695fabf75a6dc4d78ae303fabf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:14 +0000
Subject: [PATCH 09/39] fix: image sharing keeps styled images' own attributes
 together and leaves SMIL-animated images alone

Moving style/class onto the wrapper while opacity/visibility stayed on the <use>
multiplied (or un-hid) what the stylesheet overrides, and SMIL children moved to the
wrapper animated attributes it does not have.
---
 src/post-processing/hoist-image-payloads.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/post-processing/hoist-image-payloads.ts b/src/post-processing/hoist-image-payloads.ts
index d75b760..356c88d 100644
--- a/src/post-processing/hoist-image-payloads.ts
+++ b/src/post-processing/hoist-image-payloads.ts
@@ -66,6 +66,9 @@ const DEF_ATTRS = new Set(["href", "width", "height", "preserveAspectRatio"]);
  */
 const COORD_SENSITIVE_ATTRS = new Set(["clip-path", "mask", "filter", "transform", "style", "class"]);
 
+/** A SMIL animation element among an `<image>`'s children. */
+const SMIL_CHILD_RE = /<(?:animate|animateTransform|animateMotion|animateColor|set)\b/;
+
 /** One `<image>` element located in the source, with its attributes parsed. */
 interface ParsedImage {
   /** Index of `<` in the source. */
@@ -172,6 +175,9 @@ export function hoistDuplicateImagePayloads(svg: string, opts: HoistImagePayload
   const groups = new Map<string, ParsedImage[]>();
   for (const img of images) {
     if (attrValue(img, "xlink:href") != null) continue; // legacy ref form; not ours
+    // SMIL children animate the `<image>`'s own attributes (`x`, `opacity`, …); on
+    // the wrapping `<g>` those attributes mean something else or nothing at all.
+    if (SMIL_CHILD_RE.test(img.children)) continue;
     const href = attrValue(img, "href");
     if (href == null || !href.startsWith("data:") || href.length < minPayloadChars) continue;
     const width = attrValue(img, "width");
@@ -227,10 +233,14 @@ export function hoistDuplicateImagePayloads(svg: string, opts: HoistImagePayload
       );
       const x = attrValue(img, "x");
       const y = attrValue(img, "y");
+      // `style` / `class` override the element's own presentation attributes
+      // (`opacity`, `visibility`, …): those have to stay on the same element.
+      const styled = coordAttrs.some((a) => a.name === "style" || a.name === "class");
+      const groupAttrs = styled ? [...coordAttrs, ...useAttrs] : coordAttrs;
       const useTag = `<use href="#${defId}"`
         + (x != null ? ` x="${x}"` : "")
         + (y != null ? ` y="${y}"` : "")
-        + fmtAttrs(useAttrs)
+        + (styled ? "" : fmtAttrs(useAttrs))
         + `/>`;
       replacements.set(
         img.start,
@@ -238,7 +248,7 @@ export function hoistDuplicateImagePayloads(svg: string, opts: HoistImagePayload
           ? useTag
           // The `<g>` holds the clip/mask/filter so it resolves in the ORIGINAL
           // user space; the `<use>` inside carries only the translate.
-          : `<g${fmtAttrs(coordAttrs)}>${img.children}${useTag}</g>`,
+          : `<g${fmtAttrs(groupAttrs)}>${img.children}${useTag}</g>`,
       );
     }
   }
-- 
2.43.0


From 9b1b56774e881db8f3f160641a8fffef11581fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 10/39] fix: a trim starting exactly on a discrete SMIL stop
 shows that stop's value

---
 src/scrubber/trim.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scrubber/trim.ts b/src/scrubber/trim.ts
index 57efa82..6d0792c 100644
--- a/src/scrubber/trim.ts
+++ b/src/scrubber/trim.ts
@@ -99,8 +99,9 @@ function valueAt(stops: Stop[], f: number, discrete: boolean): string {
   if (f <= stops[0].at) return stops[0].value;
   if (f >= stops[stops.length - 1].at) return stops[stops.length - 1].value;
   let lo = stops[0], hi = stops[stops.length - 1];
-  for (let i = 0; i < stops.length - 1; i++) {
-    if (stops[i].at <= f && f <= stops[i + 1].at) { lo = stops[i]; hi = stops[i + 1]; break; }
+  // The LAST segment starting at or before `f`: a stop's own value holds from its instant.
+  for (let i = stops.length - 2; i >= 0; i--) {
+    if (stops[i].at <= f) { lo = stops[i]; hi = stops[i + 1]; break; }
   }
   if (discrete) return lo.value; // hold the value of the stop at-or-before f
   const span = hi.at - lo.at;
-- 
2.43.0


From b1cccb14fa7d044295a89a60467855e0f5b94b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:12 +0000
Subject: [PATCH 11/39] fix: trim reads clock values in whole microseconds so a
 start on the span edge stays out of it

---
 src/scrubber/trim.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/scrubber/trim.ts b/src/scrubber/trim.ts
index 6d0792c..3012146 100644
--- a/src/scrubber/trim.ts
+++ b/src/scrubber/trim.ts
@@ -63,10 +63,9 @@ function parseClockMs(v: string): number | null {
   const t = v.trim();
   let m = /^(-?\d*\.?\d+)ms$/.exec(t);
   if (m) return parseFloat(m[1]);
-  m = /^(-?\d*\.?\d+)s$/.exec(t);
-  if (m) return parseFloat(m[1]) * 1000;
-  m = /^(-?\d*\.?\d+)$/.exec(t);
-  if (m) return parseFloat(m[1]) * 1000;
+  // Rounded, so 2.01s is 2010 ms and not a hair before it (it may sit on a span edge).
+  m = /^(-?\d*\.?\d+)s?$/.exec(t);
+  if (m) return Math.round(parseFloat(m[1]) * 1e6) / 1e3;
   return null;
 }
 
-- 
2.43.0


From f431148bde6e38b3354fabc04cca188afa908719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:41 +0000
Subject: [PATCH 12/39] fix: trim re-bases every rule sharing keyframes with a
 re-based one, and reads SMIL default key times and from/to

---
 src/scrubber/trim.ts | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/scrubber/trim.ts b/src/scrubber/trim.ts
index 3012146..eabd386 100644
--- a/src/scrubber/trim.ts
+++ b/src/scrubber/trim.ts
@@ -253,19 +253,21 @@ export function trimAnimatedSvg(svgMarkup: string, startMs: number, endMs: numbe
   // EVERY CSS animation referencing it is period-spanning (so the rule is a
   // clean all-period-spanning rule). Mixed rules fall back to re-basing.
   const sliceNames = new Set<string>();
-  const rebaseRuleNames = new Set<string>(); // names whose rule is re-based (don't slice)
   const ruleTiming = new Map<string, string>(); // timing function of the rule that plays each name
+  const rules = [...svgMarkup.matchAll(ANIMATION_RE)].map((m) => parseCssAnims(m[1], keyframeNames));
+  for (const a of rules.flat()) {
+    if (a.name == null) continue;
+    ruleTiming.set(a.name, a.timing);
+    sliceNames.add(a.name);
+  }
   const isSliceable = (anims: CssAnim[]): boolean =>
-    anims.length > 0 && anims.every((a) => isPeriod(a.durMs) && a.infinite && a.delayMs === 0);
-  for (const m of svgMarkup.matchAll(ANIMATION_RE)) {
-    const anims = parseCssAnims(m[1], keyframeNames);
-    for (const a of anims) {
-      if (a.name == null) continue;
-      ruleTiming.set(a.name, a.timing);
-      if (isSliceable(anims)) sliceNames.add(a.name); else rebaseRuleNames.add(a.name);
-    }
+    anims.length > 0 && anims.every((a) => isPeriod(a.durMs) && a.infinite && a.delayMs === 0 && (a.name == null || sliceNames.has(a.name)));
+  // A name played by any re-based rule is never sliced — and then neither are the
+  // other rules playing it, nor the names THEY play, and so on.
+  for (let before = -1; before !== sliceNames.size;) {
+    before = sliceNames.size;
+    for (const anims of rules) if (!isSliceable(anims)) for (const a of anims) if (a.name != null) sliceNames.delete(a.name);
   }
-  for (const n of rebaseRuleNames) sliceNames.delete(n); // a name used by any re-based rule is never sliced
 
   let out = svgMarkup;
 
@@ -313,6 +315,12 @@ function setAttr(tag: string, name: string, value: string): string {
   return tag.replace(/\s*\/?>$/, (end) => ` ${name}="${value}"${end.trim().startsWith("/") ? "/>" : ">"}`);
 }
 
+/** Key times of `n` values: as written, else spread evenly (a discrete value owns an equal share). */
+function keyTimesOf(tag: string, n: number, calcMode: string): number[] {
+  return attr(tag, "keyTimes")?.split(";").map((s) => parseFloat(s))
+    ?? Array.from({ length: n }, (_, i) => calcMode === "discrete" ? i / n : n === 1 ? 0 : i / (n - 1));
+}
+
 function rewriteSmil(
   tag: string, t0: number, win: number, f0: number, f1: number, winSec: string,
   isPeriod: (d: number | null) => boolean, idCounter: { n: number }, result: TrimResult,
@@ -320,7 +328,8 @@ function rewriteSmil(
   const durMs = parseClockMs(attr(tag, "dur") ?? "");
   const repeat = attr(tag, "repeatCount");
   const looping = repeat === "indefinite" || (repeat != null && parseFloat(repeat) > 1);
-  const values = attr(tag, "values");
+  const from = attr(tag, "from"), to = attr(tag, "to");
+  const values = attr(tag, "values") ?? (from != null && to != null ? `${from};${to}` : null);
   const calcMode = attr(tag, "calcMode") ?? "linear";
 
   // PERIOD-SPANNING (looping, dur ≈ period): window-slice the values/keyTimes so
@@ -330,10 +339,7 @@ function rewriteSmil(
   const beginMs = beginAttr == null ? 0 : parseClockMs(beginAttr);
   if (isPeriod(durMs) && looping && beginMs === 0 && values != null && calcMode !== "paced" && calcMode !== "spline") {
     const vals = values.split(";").map((s) => s.trim());
-    const ktAttr = attr(tag, "keyTimes");
-    const kt = ktAttr != null
-      ? ktAttr.split(";").map((s) => parseFloat(s))
-      : vals.map((_, i) => (vals.length === 1 ? 0 : i / (vals.length - 1)));
+    const kt = keyTimesOf(tag, vals.length, calcMode);
     const sliced = windowStops(vals.map((value, i) => ({ at: kt[i] ?? 0, value })), f0, f1, calcMode === "discrete");
     let t = setAttr(tag, "values", sliced.map((s) => s.value).join(";"));
     t = setAttr(t, "keyTimes", sliced.map((s) => keyTime(s.at)).join(";"));
@@ -363,8 +369,7 @@ function rewriteSmil(
     const frozen = attr(tag, "fill") === "freeze";
     if (delta < 0 || frozen) {
       const vals = values.split(";").map((s) => s.trim());
-      const kt = attr(tag, "keyTimes")?.split(";").map((s) => parseFloat(s))
-        ?? vals.map((_, i) => calcMode === "discrete" ? i / vals.length : vals.length === 1 ? 0 : i / (vals.length - 1));
+      const kt = keyTimesOf(tag, vals.length, calcMode);
       let stops: Stop[] = vals.map((value, i) => ({ at: kt[i] ?? 0, value }));
       const last = vals[vals.length - 1];
       // Already running when the window opens → only its remaining part plays.
-- 
2.43.0


From ec7bae8b185ee17420f4e0e28153cd45ead380e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 13/39] fix: culling lets repeating and baked animations meet
 any scene instant at any progress

---
 src/tree-ops/swept-transform-bounds.ts | 24 +++++++++++++++++++++---
 src/tree-ops/viewbox-culling.ts        |  1 +
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/tree-ops/swept-transform-bounds.ts b/src/tree-ops/swept-transform-bounds.ts
index 75e8d7c..912e6e7 100644
--- a/src/tree-ops/swept-transform-bounds.ts
+++ b/src/tree-ops/swept-transform-bounds.ts
@@ -34,6 +34,12 @@ export interface SweptAnimationContext {
   transformReferenceBox?: SweptBox;
   /** Exact frame origin when the tree walk has the global scene timeline. */
   frameStartPct?: number;
+  /**
+   * A `repeat` animation is emitted with its own duration and iteration count,
+   * so it runs on the document clock while the cull window replays with every
+   * scene loop: its phase at a given scene percentage differs from loop to loop.
+   */
+  documentClock?: boolean;
 }
 
 export interface SweptBoxInterval {
@@ -66,6 +72,8 @@ interface TimingModel {
    * This loses correlation but contains every baked chord.
    */
   wholeActiveRange: boolean;
+  /** Not tied to the scene clock: any progress can meet any scene percentage. */
+  anyPhase: boolean;
 }
 
 interface AnimatedOperation {
@@ -382,6 +390,7 @@ function timingForTrack(
     alternate: repeating && ctx.anim.alternate === true,
     easing,
     wholeActiveRange: sampledFusion,
+    anyPhase: repeating && ctx.documentClock === true,
   };
   return finite(result.startPct, result.durationPct) ? result : null;
 }
@@ -431,8 +440,9 @@ function buildWrapper(ctx: SweptAnimationContext): WrapperModel | "identity" | n
   tracks.push(...(ctx.anim.fuse ?? []));
   const transformTracks = tracks.filter((track) => TRANSFORM_FAMILY.has(track.property));
   const sampledFusion = ctx.anim.repeat == null &&
-    (ctx.anim.fuse ?? []).some((track) =>
-      track.duration != null || track.delay != null || track.easing != null);
+    ((ctx.anim.fuse ?? []).some((track) =>
+      track.duration != null || track.delay != null || track.easing != null)
+      || ctx.animStartPct < 0 || ctx.animEndPct > 100);
   // `composeAnimStop` concatenates all transform-family strings. `none` is
   // valid only as the complete transform value, so `none translate(...)`
   // would be dropped by CSS parsing. Retain instead of modelling motion that
@@ -487,6 +497,7 @@ function timingIterationRange(timing: TimingModel): [number, number] | null {
 }
 
 function addTimingBoundaries(boundaries: Set<number>, timing: TimingModel): boolean {
+  if (timing.anyPhase) return true;
   if (!addBoundary(boundaries, timing.startPct)) return false;
   const range = timingIterationRange(timing);
   if (range == null) return false;
@@ -513,6 +524,13 @@ function terminalProgress(timing: TimingModel): number {
 }
 
 function progressRange(timing: TimingModel, startPct: number, endPct: number): [number, number] | null {
+  // Baked chords and an arbitrary phase both reach the endpoints themselves,
+  // which a jump-start / jump-both curve never takes inside its active interval.
+  const wholeRange = (): [number, number] => {
+    const [lo, hi] = timing.easing.range(0, 1);
+    return [Math.min(lo, 0), Math.max(hi, 1)];
+  };
+  if (timing.anyPhase) return wholeRange();
   const midpoint = (startPct + endPct) / 2;
   const activeEnd = timing.iterations === "infinite"
     ? Number.POSITIVE_INFINITY
@@ -528,7 +546,7 @@ function progressRange(timing: TimingModel, startPct: number, endPct: number): [
   const hi = Math.max(0, Math.min(1, (endPct - iterationStart) / timing.durationPct));
   if (!finite(lo, hi)) return null;
   const reversed = timing.alternate && iteration % 2 === 1;
-  if (timing.wholeActiveRange) return timing.easing.range(0, 1);
+  if (timing.wholeActiveRange) return wholeRange();
   if (!reversed) return timing.easing.range(lo, hi);
   // Reversing the keyframe traversal evaluates the same timing curve with
   // reversed input: E(1-u). At u=0 this is the `to` value (progress 1), and
diff --git a/src/tree-ops/viewbox-culling.ts b/src/tree-ops/viewbox-culling.ts
index c4da6f1..8658108 100644
--- a/src/tree-ops/viewbox-culling.ts
+++ b/src/tree-ops/viewbox-culling.ts
@@ -208,6 +208,7 @@ export function cullElementsOutsideViewBox(
         animStartPct: (startMs / totalDurationMs) * 100,
         animEndPct: (endMs / totalDurationMs) * 100,
         frameStartPct: (frameStartMs / totalDurationMs) * 100,
+        documentClock: true,
         anim: a,
       });
     }
-- 
2.43.0


From a3fc4d8cda9e10320db6227c9ed25da2105b1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 14/39] fix: an animation window overrunning the scene keeps
 its own pace

---
 src/animation/animator.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 4feccdb..da29627 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -3012,7 +3012,10 @@ function buildIntraFrameAnimationCss(
       // (`repeat` loops keep the shared-timing cycle form).
       const sampledTracks = a.fuse ?? [];
       const needsSampling = a.repeat == null
-        && sampledTracks.some((t) => t.duration != null || t.delay != null || t.easing != null);
+        && (sampledTracks.some((t) => t.duration != null || t.delay != null || t.easing != null)
+          // Keyframe selectors outside 0–100 % are dropped by CSS, so a window
+          // that overruns the scene cannot be written as a from/to pair.
+          || startPct < 0 || endPct > 100.0005);
       if (needsSampling) {
         const win = tracks.map((t) => {
           const tStart = frameStartMs + (t.delay ?? delay);
-- 
2.43.0


From d5ba71d33a88806b6ec2b630aa31c3949455a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 15/39] fix: culling follows descendants that move below a
 geometry contributor or escape as viewport-fixed

---
 src/render/culling-geometry.ts  | 27 ++++++++++++++++++++++-----
 src/tree-ops/viewbox-culling.ts | 16 +++++++++++++---
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/render/culling-geometry.ts b/src/render/culling-geometry.ts
index 56c4230..a446a81 100644
--- a/src/render/culling-geometry.ts
+++ b/src/render/culling-geometry.ts
@@ -29,6 +29,7 @@ import {
   overflowClipMarginGeometry,
   usedOverflowClipMargin,
 } from "./overflow-clip.js";
+import { isFixedContainingBlock } from "./stacking.js";
 import { cssTransformToSvg } from "./transforms.js";
 
 export interface RendererCullBox {
@@ -742,6 +743,15 @@ function childOverflowClip(el: CapturedElement): AxisClip | null | "unknown" {
   return clip;
 }
 
+/**
+ * The renderer paints viewport-fixed elements at the document root, outside
+ * every ancestor's group and clip — unless an ancestor is itself fixed or a
+ * containing block for fixed descendants.
+ */
+export function keepsFixedDescendants(el: CapturedElement): boolean {
+  return el.styles?.position === "fixed" || isFixedContainingBlock(el);
+}
+
 /**
  * Derive the exact/bounded facts consumed by the culler from the renderer's
  * own output branches.  This is intentionally a preflight, not a second DOM
@@ -758,7 +768,7 @@ export function buildRendererCullGeometry(
   const output = new WeakMap<CapturedElement, RendererOwnedCullGeometry>();
   const viewBox = box(0, 0, viewportW, viewportH);
 
-  const buildLocal = (el: CapturedElement): LocalNodeGeometry => {
+  const buildLocal = (el: CapturedElement, fixedEscapes: boolean): LocalNodeGeometry => {
     const own = ownGeometry(el);
     const staticMatrix = own.atomic ? "identity" : elementStaticMatrix(el);
     let fill = own.fill;
@@ -767,8 +777,10 @@ export function buildRendererCullGeometry(
     let hasAnimatedDescendant = false;
     const overflowClip = own.suppressesDescendants ? null : childOverflowClip(el);
     if (!own.suppressesDescendants) {
+      const childFixedEscapes = fixedEscapes && !keepsFixedDescendants(el);
       for (const child of el.children) {
-        const childLocal = buildLocal(child);
+        const childLocal = buildLocal(child, childFixedEscapes);
+        if (childFixedEscapes && child.styles.position === "fixed") continue;
         hasAnimatedDescendant ||= child.animId != null && child.animId !== "" || childLocal.hasAnimatedDescendant;
         fill = unionReference(fill, mapReference(childLocal.fill, childLocal.staticMatrix));
         stroke = unionReference(stroke, mapReference(childLocal.stroke, childLocal.staticMatrix));
@@ -789,13 +801,14 @@ export function buildRendererCullGeometry(
     local.set(el, result);
     return result;
   };
-  for (const root of roots) buildLocal(root);
+  for (const root of roots) buildLocal(root, true);
 
   const publish = (
     el: CapturedElement,
     ancestorMatrix: SvgAffineMatrix,
     ancestorClip: AxisClip | null,
     inheritedStatic: boolean,
+    fixedEscapes: boolean,
   ): void => {
     const node = local.get(el)!;
     const matrix = node.staticMatrix === "identity"
@@ -827,8 +840,12 @@ export function buildRendererCullGeometry(
     const localClip = childOverflowClip(el);
     const mappedClip = localClip == null || localClip === "unknown" ? null : mapClip(localClip, matrix);
     const childClip = localClip === "unknown" ? ancestorClip : intersectClips(ancestorClip, mappedClip);
-    for (const child of el.children) publish(child, matrix, childClip, hasStatic);
+    const childFixedEscapes = fixedEscapes && !keepsFixedDescendants(el);
+    for (const child of el.children) {
+      const escapes = childFixedEscapes && child.styles.position === "fixed";
+      publish(child, matrix, escapes ? null : childClip, hasStatic, childFixedEscapes);
+    }
   };
-  for (const root of roots) publish(root, IDENTITY, null, false);
+  for (const root of roots) publish(root, IDENTITY, null, false, true);
   return { get: (element) => output.get(element) };
 }
diff --git a/src/tree-ops/viewbox-culling.ts b/src/tree-ops/viewbox-culling.ts
index 8658108..ce56cc1 100644
--- a/src/tree-ops/viewbox-culling.ts
+++ b/src/tree-ops/viewbox-culling.ts
@@ -21,6 +21,7 @@ import {
 } from "./swept-transform-bounds.js";
 import {
   buildRendererCullGeometry,
+  keepsFixedDescendants,
   type RendererCullGeometryIndex,
   type RendererOwnedCullGeometry,
 } from "../render/culling-geometry.js";
@@ -251,6 +252,8 @@ export function cullElementsOutsideViewBox(
   const walk = (
     el: CapturedElement,
     inheritedCtx: readonly AnimationFrameContext[],
+    fixedEscapes: boolean,
+    keepGeometry: boolean,
   ): VisibleHull | null => {
     const {
       contexts,
@@ -261,11 +264,18 @@ export function cullElementsOutsideViewBox(
       el, viewportW, viewportH, inheritedCtx, animsById, geometryIndex,
     );
     let subtreeHull = decisionHull(decision);
-    if (!suppressesDescendants && !preservesDescendantReferenceGeometry && el.children != null) {
+    if (!suppressesDescendants && el.children != null) {
+      // Below a geometry contributor nothing is culled on its own, but a moving
+      // descendant still widens the owner's window: the owner's static surface
+      // does not cover where its descendants' own animations take them.
+      const keepChildren = keepGeometry || preservesDescendantReferenceGeometry;
+      const childFixedEscapes = fixedEscapes && !keepsFixedDescendants(el);
       for (const child of el.children) {
-        subtreeHull = unionHull(subtreeHull, walk(child, contexts));
+        const escapes = childFixedEscapes && child.styles?.position === "fixed";
+        subtreeHull = unionHull(subtreeHull, walk(child, escapes ? [] : contexts, childFixedEscapes, keepChildren));
       }
     }
+    if (keepGeometry) return subtreeHull;
     if (subtreeHull == null) {
       el.displayNone = true;
       return null;
@@ -275,7 +285,7 @@ export function cullElementsOutsideViewBox(
     }
     return subtreeHull;
   };
-  for (const root of roots) walk(root, []);
+  for (const root of roots) walk(root, [], true, false);
 
   return { css: cssBlocks.join("\n") };
 }
-- 
2.43.0


From 096624869b75e7d034f3a437c1f1b672a13e67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:31 +0000
Subject: [PATCH 16/39] fix: keep easing overshoot in baked animation tracks

interpolateCssValue clamped progress outside [0,1] to the endpoints, so a
fused track with its own overshooting curve lost the overshoot it has when
it is not fused. Bake a scene-overrunning window only for curves the baker
reproduces.
---
 src/animation/animator.ts              |  4 ++--
 src/animation/easing.ts                | 12 +++++++++---
 src/tree-ops/swept-transform-bounds.ts |  6 +++---
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index da29627..1730a86 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -20,7 +20,7 @@ import { renderTextAsPath } from "../render/text-to-path.js";
 import { DEFAULT_TRANSITION_MS, frameAdvanceMs, transitionDurationMs } from "./frame-timeline.js";
 import { offsetEmbeddedAnimatedSvgTimeline } from "./embed-timeline.js";
 import { KEYFRAME_EPSILON, cullOverlapPct, padAfter, padBefore } from "../utils/keyframe-pad.js";
-import { interpolateCssValue, resolveEasing } from "./easing.js";
+import { interpolateCssValue, isBakeableEasing, resolveEasing } from "./easing.js";
 import { resolveEasingPreset } from "./motion-presets.js";
 import { buildShineSweep } from "./shine.js";
 import { barCaretHeightPx, caretShapeRect, type CaretShape } from "./caret-metrics.js";
@@ -3015,7 +3015,7 @@ function buildIntraFrameAnimationCss(
         && (sampledTracks.some((t) => t.duration != null || t.delay != null || t.easing != null)
           // Keyframe selectors outside 0–100 % are dropped by CSS, so a window
           // that overruns the scene cannot be written as a from/to pair.
-          || startPct < 0 || endPct > 100.0005);
+          || ((startPct < 0 || endPct > 100.0005) && isBakeableEasing(a.easing)));
       if (needsSampling) {
         const win = tracks.map((t) => {
           const tStart = frameStartMs + (t.delay ?? delay);
diff --git a/src/animation/easing.ts b/src/animation/easing.ts
index 983c5eb..cb6e3ba 100644
--- a/src/animation/easing.ts
+++ b/src/animation/easing.ts
@@ -74,6 +74,11 @@ export function resolveEasing(css: string | undefined): EasingFn {
   return NAMED.linear;
 }
 
+/** Whether `resolveEasing` reproduces this curve rather than falling back to `linear`. */
+export function isBakeableEasing(css: string | undefined): boolean {
+  return css == null || css === "" || css.trim() === "linear" || resolveEasing(css) !== NAMED.linear;
+}
+
 /** Round to at most 4 decimals and drop trailing zeros. */
 function fmt(n: number): string {
   return Number(n.toFixed(4)).toString();
@@ -133,7 +138,7 @@ export function springLinearEasing(damping: number, omega: number, samples = 40)
 const NUM_RE = /-?\d*\.?\d+(?:e-?\d+)?/g;
 
 /**
- * Interpolate between two CSS value strings at `t` in [0,1] by matching their
+ * Interpolate between two CSS value strings at progress `t` by matching their
  * numeric tokens pairwise and lerping each, keeping the surrounding literal
  * skeleton. Handles the value shapes the intra-frame animator produces —
  * `"0.3"`→`"1"` (scale), `"-0.6em"`→`"0em"` (translate), `"240px"`→`"0px"`,
@@ -142,8 +147,9 @@ const NUM_RE = /-?\d*\.?\d+(?:e-?\d+)?/g;
  * can't be smoothly interpolated, so it steps at the midpoint.
  */
 export function interpolateCssValue(from: string, to: string, t: number): string {
-  if (t <= 0) return from;
-  if (t >= 1) return to;
+  // An overshooting curve leaves [0,1]; only the exact endpoints are verbatim.
+  if (t === 0) return from;
+  if (t === 1) return to;
   const fParts: string[] = [];
   const fNums: number[] = [];
   let last = 0;
diff --git a/src/tree-ops/swept-transform-bounds.ts b/src/tree-ops/swept-transform-bounds.ts
index 912e6e7..3223644 100644
--- a/src/tree-ops/swept-transform-bounds.ts
+++ b/src/tree-ops/swept-transform-bounds.ts
@@ -390,7 +390,8 @@ function timingForTrack(
     alternate: repeating && ctx.anim.alternate === true,
     easing,
     wholeActiveRange: sampledFusion,
-    anyPhase: repeating && ctx.documentClock === true,
+    // A one-shot window overrunning the scene is baked or clipped to it.
+    anyPhase: ctx.documentClock === true && (repeating || ctx.animStartPct < 0 || ctx.animEndPct > 100),
   };
   return finite(result.startPct, result.durationPct) ? result : null;
 }
@@ -441,8 +442,7 @@ function buildWrapper(ctx: SweptAnimationContext): WrapperModel | "identity" | n
   const transformTracks = tracks.filter((track) => TRANSFORM_FAMILY.has(track.property));
   const sampledFusion = ctx.anim.repeat == null &&
     ((ctx.anim.fuse ?? []).some((track) =>
-      track.duration != null || track.delay != null || track.easing != null)
-      || ctx.animStartPct < 0 || ctx.animEndPct > 100);
+      track.duration != null || track.delay != null || track.easing != null));
   // `composeAnimStop` concatenates all transform-family strings. `none` is
   // valid only as the complete transform value, so `none translate(...)`
   // would be dropped by CSS parsing. Retain instead of modelling motion that
-- 
2.43.0


From b456f0ee46dd805cf44da5ea887bef5578dd0195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:15 +0000
Subject: [PATCH 17/39] fix: sample baked animation tracks across their own
 windows

The bake grid was 2 % of the scene, so a short track in a long scene kept
only its end points and lost its easing.
---
 src/animation/animator.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 1730a86..539818d 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -3027,14 +3027,14 @@ function buildIntraFrameAnimationCss(
             ease: resolveEasing(t.easing ?? a.easing),
           };
         });
-        const minStart = Math.min(...win.map((w) => w.startPct));
-        const maxEnd = Math.max(...win.map((w) => w.endPct));
-        // Stops: 0/100 + every track boundary + a fine grid across the active
-        // span so each track's eased curve is well approximated.
+        // Stops: 0/100 + every track boundary + a fine grid across each track's
+        // own window, so its eased curve is well approximated however short the
+        // window is next to the scene.
         const stopSet = new Set<number>([0, 100]);
-        for (const w of win) { stopSet.add(w.startPct); stopSet.add(w.endPct); }
-        const STEP = 2;
-        for (let p = minStart; p < maxEnd; p += STEP) stopSet.add(p);
+        const SAMPLES = 25;
+        for (const w of win) {
+          for (let k = 0; k <= SAMPLES; k++) stopSet.add(w.startPct + ((w.endPct - w.startPct) * k) / SAMPLES);
+        }
         const stops = [...stopSet].filter((p) => p >= 0 && p <= 100).sort((x, y) => x - y);
         const seen = new Set<string>();
         const body = stops.map((p) => {
-- 
2.43.0


From c166d2c9c09fe875d134c42418e9f4a0de67b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:24 +0000
Subject: [PATCH 18/39] fix: a failed helper installation removes its partial
 files

A full disk (or a failing chmod/rename) left the partially written private
copy in the cache directory for good.
---
 src/render/helper-acquire.ts     | 13 +++++++++----
 src/render/icu-helper-acquire.ts | 33 +++++++++++++++++++-------------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/render/helper-acquire.ts b/src/render/helper-acquire.ts
index 9097579..9bf5620 100644
--- a/src/render/helper-acquire.ts
+++ b/src/render/helper-acquire.ts
@@ -26,7 +26,7 @@
 import { spawnSync } from "node:child_process";
 import { hostPlatform } from "./host-platform.js";
 import { createHash } from "node:crypto";
-import { chmodSync, existsSync, mkdirSync, renameSync, writeFileSync } from "node:fs";
+import { chmodSync, existsSync, mkdirSync, renameSync, rmSync, writeFileSync } from "node:fs";
 import { homedir } from "node:os";
 import path from "node:path";
 import { createRequire } from "node:module";
@@ -129,9 +129,14 @@ export async function downloadAndInstall(assetUrl: string, shaUrl: string, dest:
   if (expected.length === 0 || sha256Hex(buf) !== expected) return false;
   mkdirSync(path.dirname(dest), { recursive: true });
   const tmp = `${dest}.tmp-${process.pid}`;
-  writeFileSync(tmp, buf);
-  chmodSync(tmp, 0o755);
-  renameSync(tmp, dest); // atomic — avoids a torn binary if two processes race
+  try {
+    writeFileSync(tmp, buf);
+    chmodSync(tmp, 0o755);
+    renameSync(tmp, dest); // atomic — avoids a torn binary if two processes race
+  } catch (err) {
+    rmSync(tmp, { force: true }); // a full disk must not also keep the partial file
+    throw err;
+  }
   return true;
 }
 
diff --git a/src/render/icu-helper-acquire.ts b/src/render/icu-helper-acquire.ts
index 117b32f..72c00d5 100644
--- a/src/render/icu-helper-acquire.ts
+++ b/src/render/icu-helper-acquire.ts
@@ -1,7 +1,7 @@
 /** On-demand acquisition for the independently versioned ICU companion. */
 import { spawnSync } from "node:child_process";
 import { createHash } from "node:crypto";
-import { chmodSync, existsSync, mkdirSync, renameSync, writeFileSync } from "node:fs";
+import { chmodSync, existsSync, mkdirSync, renameSync, rmSync, writeFileSync } from "node:fs";
 import { homedir } from "node:os";
 import path from "node:path";
 import { fileURLToPath } from "node:url";
@@ -95,19 +95,26 @@ export async function downloadIcuCompanion(target: IcuCompanionTarget): Promise<
   const nonce = `${process.pid}-${Date.now()}`;
   const executableTmp = `${target.executablePath}.tmp-${nonce}`;
   const dataTmp = `${target.dataPath}.tmp-${nonce}`;
-  writeFileSync(executableTmp, executable);
-  chmodSync(executableTmp, 0o755);
-  writeFileSync(dataTmp, data);
-  // Install data first. A concurrent process can never observe a new helper
-  // without its matching data; rename is atomic within the cache directory.
-  renameSync(dataTmp, target.dataPath);
-  for (let i = 0; i < target.runtimeAssets.length; ++i) {
-    const item = target.runtimeAssets[i];
-    const tmp = `${item.path}.tmp-${nonce}`;
-    writeFileSync(tmp, runtime[i]!);
-    renameSync(tmp, item.path);
+  const temporaries = [executableTmp, dataTmp];
+  try {
+    writeFileSync(executableTmp, executable);
+    chmodSync(executableTmp, 0o755);
+    writeFileSync(dataTmp, data);
+    // Install data first. A concurrent process can never observe a new helper
+    // without its matching data; rename is atomic within the cache directory.
+    renameSync(dataTmp, target.dataPath);
+    for (let i = 0; i < target.runtimeAssets.length; ++i) {
+      const item = target.runtimeAssets[i];
+      const tmp = `${item.path}.tmp-${nonce}`;
+      temporaries.push(tmp);
+      writeFileSync(tmp, runtime[i]!);
+      renameSync(tmp, item.path);
+    }
+    renameSync(executableTmp, target.executablePath);
+  } catch (err) {
+    for (const tmp of temporaries) rmSync(tmp, { force: true });
+    throw err;
   }
-  renameSync(executableTmp, target.executablePath);
   return true;
 }
 
-- 
2.43.0


From 7e5d2ac49103883e0255bdc2ece36ead20474460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:13 +0000
Subject: [PATCH 19/39] fix: terminal screens show reverse video, concealed
 text and wide characters as the terminal did, and a split cursor escape
 counts

---
 src/terminal/emulator.ts | 27 +++++++++++++++++++--------
 src/terminal/render.ts   |  2 +-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/terminal/emulator.ts b/src/terminal/emulator.ts
index b5afec6..36231a6 100644
--- a/src/terminal/emulator.ts
+++ b/src/terminal/emulator.ts
@@ -54,7 +54,8 @@ export class TerminalEmulator {
   rows: number;
   private theme: TerminalTheme;
   // `@xterm/headless` has no public cursor-visibility getter, so track DECTCEM
-  // (`\x1b[?25h` show / `\x1b[?25l` hide) off the byte stream ourselves.
+  // (`\x1b[?25h` show / `\x1b[?25l` hide) off the parsed sequences — a recorder
+  // may split one across two output events.
   private cursorVisible = true;
 
   constructor(cols: number, rows: number, theme: TerminalTheme = THEMES.catppuccin) {
@@ -62,13 +63,18 @@ export class TerminalEmulator {
     this.rows = rows;
     this.theme = theme;
     this.term = new Terminal({ cols, rows, allowProposedApi: true, scrollback: 0 });
+    const show = (): boolean => { this.cursorVisible = true; return false; };
+    this.term.parser.registerCsiHandler({ prefix: "?", final: "h" }, (params) => params.includes(25) && show());
+    this.term.parser.registerCsiHandler({ prefix: "?", final: "l" }, (params) => {
+      if (params.includes(25)) this.cursorVisible = false;
+      return false;
+    });
+    this.term.parser.registerCsiHandler({ intermediates: "!", final: "p" }, show); // DECSTR
+    this.term.parser.registerEscHandler({ final: "c" }, show); // RIS
   }
 
   /** Feed raw output bytes; resolves once xterm has parsed them. */
   write(data: string): Promise<void> {
-    // Track the LAST cursor show/hide toggle in this chunk (DECTCEM).
-    const m = data.match(/\x1b\[\?25([hl])(?![\s\S]*\x1b\[\?25[hl])/);
-    if (m != null) this.cursorVisible = m[1] === "h";
     return new Promise((resolve) => this.term.write(data, resolve));
   }
 
@@ -122,11 +128,16 @@ export class TerminalEmulator {
           row.push({ char: " ", fg: null, bg: null, bold: false, italic: false, dim: false, underline: false });
           continue;
         }
-        const chars = cell.getChars();
+        // The second half of a wide character is empty and must stay so: the
+        // glyph itself already spans both columns. Concealed text (SGR 8) is blank.
+        const chars = cell.getWidth() === 0 ? "" : cell.isInvisible() !== 0 ? " " : cell.getChars() || " ";
+        const fg = this.resolveColor(cell.getFgColor(), cell.isFgRGB(), cell.isFgPalette());
+        const bg = this.resolveColor(cell.getBgColor(), cell.isBgRGB(), cell.isBgPalette());
+        const inverse = cell.isInverse() !== 0;
         row.push({
-          char: chars === "" ? " " : chars,
-          fg: this.resolveColor(cell.getFgColor(), cell.isFgRGB(), cell.isFgPalette()),
-          bg: this.resolveColor(cell.getBgColor(), cell.isBgRGB(), cell.isBgPalette()),
+          char: chars,
+          fg: inverse ? bg ?? this.theme.bg : fg,
+          bg: inverse ? fg ?? this.theme.fg : bg,
           bold: cell.isBold() !== 0,
           italic: cell.isItalic() !== 0,
           dim: cell.isDim() !== 0,
diff --git a/src/terminal/render.ts b/src/terminal/render.ts
index 0764a98..27ef705 100644
--- a/src/terminal/render.ts
+++ b/src/terminal/render.ts
@@ -134,7 +134,7 @@ export function rowInnerHtml(row: TermCell[], theme: TerminalTheme): string {
   let end = row.length;
   while (end > 0) {
     const c = row[end - 1];
-    if (c.char !== " " || c.fg != null || c.bg != null) break;
+    if (c.char !== " " || c.fg != null || c.bg != null || c.underline) break;
     end--;
   }
   if (end === 0) return "";
-- 
2.43.0


From 1990911d78fdd11eb53bb5f3a5f785cee4878963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:13 +0000
Subject: [PATCH 20/39] fix: place the terminal caret by the measured grid's
 columns when the recording was resized

---
 src/terminal/incremental.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terminal/incremental.ts b/src/terminal/incremental.ts
index ff024a3..9b5a718 100644
--- a/src/terminal/incremental.ts
+++ b/src/terminal/incremental.ts
@@ -404,7 +404,7 @@ export async function composeIncrementalTermSvg(
   // Blinking caret that follows the recorded cursor (incremental mode). charW is
   // the monospace cell advance, recovered from the measured content width.
   const shape = opts.cursor ?? "block";
-  const charW = cols > 0 ? (width - 2 * padding) / cols : fontSize * MONO_ADVANCE_RATIO;
+  const charW = maxCols > 0 ? (width - 2 * padding) / maxCols : fontSize * MONO_ADVANCE_RATIO;
   const cursor = shape === "none" ? null : buildCursor(frames, totalMs, charW, linePx, padding, shape, opts.cursorColor ?? theme.fg);
 
   const fontFaceCss = manageFonts ? getEmbeddedFontFaceCss() : "";
-- 
2.43.0


From e1d0a7db754c043630299d6eec7256b5d28a922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:25 +0000
Subject: [PATCH 21/39] fix: a recording resized narrower keeps the emulator's
 screen intact

---
 src/terminal/emulator.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/terminal/emulator.ts b/src/terminal/emulator.ts
index 36231a6..83d4454 100644
--- a/src/terminal/emulator.ts
+++ b/src/terminal/emulator.ts
@@ -23,6 +23,9 @@ import { THEMES, xterm256ToHex } from "./theme.js";
 type XTermCtor = new (opts: { cols: number; rows: number; allowProposedApi?: boolean; scrollback?: number }) => XTerm;
 const Terminal = (pkg as unknown as { Terminal: XTermCtor }).Terminal;
 
+/** Scrollback lent to the emulator while it reflows for a resize. */
+const RESIZE_SCROLLBACK_ROWS = 1000;
+
 /** One rendered terminal cell: its glyph plus resolved style. */
 export interface TermCell {
   char: string;
@@ -84,7 +87,11 @@ export class TerminalEmulator {
    */
   resize(cols: number, rows: number): void {
     if (cols <= 0 || rows <= 0 || (cols === this.cols && rows === this.rows)) return;
+    // Narrowing reflows long lines and pushes rows off the top; xterm corrupts a
+    // buffer that has no scrollback to push them to, so lend it some meanwhile.
+    this.term.options.scrollback = RESIZE_SCROLLBACK_ROWS;
     this.term.resize(cols, rows);
+    this.term.options.scrollback = 0;
     this.cols = cols;
     this.rows = rows;
   }
@@ -120,7 +127,7 @@ export class TerminalEmulator {
     const buf = this.term.buffer.active;
     const grid: TermGrid = [];
     for (let y = 0; y < this.rows; y++) {
-      const line = buf.getLine(y);
+      const line = buf.getLine(buf.baseY + y);
       const row: TermCell[] = [];
       for (let x = 0; x < this.cols; x++) {
         const cell = line?.getCell(x);
-- 
2.43.0


From d151b1ebe57b8d9c5a5373cfa34beb70f9b765e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 22/39] fix: svg-scrubber retries a page that failed to open
 and closes a discarded browser

---
 src/scrubber/server.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 2f0f0cb..4d3a10c 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -350,7 +350,11 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
   const getPage = async (): Promise<Page> => {
     if (browser == null) browser = await inputs.launchBrowser();
     if (pagePromise == null) {
-      pagePromise = browser.newContext({ deviceScaleFactor: 1 }).then((ctx) => ctx.newPage());
+      const opening = browser.newContext({ deviceScaleFactor: 1 }).then((ctx) => ctx.newPage());
+      pagePromise = opening;
+      // A page that failed to open must not be memoized, or every later request
+      // would replay the same rejection.
+      opening.catch(() => { if (pagePromise === opening) pagePromise = null; });
     }
     return pagePromise;
   };
@@ -366,7 +370,13 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
       const msg = String(err instanceof Error ? err.message : err);
       if (/\b(closed|crashed|disconnected|Target (?:page|closed)|browser has been closed)\b/i.test(msg)) {
         pagePromise = null;
-        if (/browser/i.test(msg)) browser = null;
+        if (/browser/i.test(msg)) {
+          // Playwright's generic "Target page, context or browser has been
+          // closed" doesn't prove the browser itself died — close it so a
+          // still-running process isn't leaked when we relaunch.
+          void browser?.close().catch(() => {});
+          browser = null;
+        }
       }
     });
     return run;
-- 
2.43.0


From 2db6abb4185ea08425b90909b17a1ab537a08bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 23/39] fix: a failing encoder no longer crashes svg-scrubber
 or lingers after a failed export

---
 src/scrubber/server.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 4d3a10c..721152e 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -158,6 +158,11 @@ async function renderRangeVideo(page: Page, svg: string, t0: number, t1: number,
     ff.on("error", reject);
     ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}: ${ffErr.slice(-400)}`))));
   });
+  // ffmpeg may exit before all frames are written: the write below then rejects
+  // (EPIPE) first. Don't let the other two failure signals (the stdin stream's
+  // 'error' event, the still-unawaited `ffDone`) take the whole server down.
+  ffDone.catch(() => {});
+  ff.stdin!.on("error", () => {});
   const writeFrame = (buf: Buffer): Promise<void> =>
     new Promise((res, rej) => ff.stdin!.write(buf, (err) => (err ? rej(err) : res())));
   try {
@@ -172,6 +177,8 @@ async function renderRangeVideo(page: Page, svg: string, t0: number, t1: number,
     await ffDone;
     return readFileSync(outPath);
   } finally {
+    if (ff.exitCode == null && ff.signalCode == null) ff.kill("SIGKILL"); // a failed render must not leave an encoder waiting for frames
+    await ffDone.catch(() => {});
     rmSync(dir, { recursive: true, force: true });
   }
 }
-- 
2.43.0


From 8eb2a65dfef97af318cb8bbf7703ccf304a12417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 24/39] fix: markup in the preloaded SVG or label cannot break
 the served page's bootstrap script

---
 src/review/server.ts   | 2 +-
 src/scrubber/server.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/review/server.ts b/src/review/server.ts
index ed5f2bf..a16c2c7 100644
--- a/src/review/server.ts
+++ b/src/review/server.ts
@@ -116,7 +116,7 @@ function renderShell(label: string): string {
   <textarea id="issue-text" readonly></textarea>
   <p class="hint">After clicking <em>File at github.com</em>, paste the text above into the issue body and attach <code>expected.png</code> and <code>actual.svg</code>.</p>
 </div>
-<script>window.__SVG_REVIEW__ = { label: ${JSON.stringify(label)} };</script>
+<script>window.__SVG_REVIEW__ = { label: ${JSON.stringify(label).replace(/</g, "\\u003c")} };</script>
 <script src="/client.js"></script>
 </body></html>`;
 }
diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 721152e..40fa1b1 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -394,7 +394,7 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
     name: inputs.initialName ?? null,
     path: inputs.initialPath ?? null,
     review: inputs.review === true,
-  });
+  }).replace(/</g, "\\u003c"); // inlined in a <script>: markup in the SVG must not end it
   const shellHtml = SHELL(bootstrap);
   // DM-1445: review mode writes `.ticket` files here (the launch cwd).
   const ticketDir = inputs.ticketDir ?? process.cwd();
-- 
2.43.0


From fb9f06fdf89922b5210dbfa00830d25798e17c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 25/39] fix: svg-scrubber tickets filed in the same millisecond
 no longer overwrite each other

---
 src/scrubber/server.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 40fa1b1..d67dc75 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -398,6 +398,7 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
   const shellHtml = SHELL(bootstrap);
   // DM-1445: review mode writes `.ticket` files here (the launch cwd).
   const ticketDir = inputs.ticketDir ?? process.cwd();
+  let lastStamp = 0;
 
   const handler = async (req: IncomingMessage, res: ServerResponse): Promise<void> => {
     const url = (req.url ?? "/").split("?")[0];
@@ -468,7 +469,9 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
         // launch cwd and return its absolute path (also logged).
         if (inputs.review !== true) throw new HttpError(404, "review mode is not enabled (run svg-scrubber --review)");
         const body = await parseBody(req, TICKET_BODY);
-        const stamp = Date.now();
+        // Strictly increasing, so two tickets filed in the same millisecond never
+        // share (and overwrite) a file name.
+        const stamp = lastStamp = Math.max(Date.now(), lastStamp + 1);
         const slug = ticketSlug(body.svgName);
         // DM-1449: optionally render the current frame to a sibling PNG (the
         // whole frame at `frameTimeMs`, so it carries context for any number of
-- 
2.43.0


From b30694866d02d1fa0c9a7053be5a2428d5d4781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:43 +0000
Subject: [PATCH 26/39] fix: scoping an embedded SVG renames names where names
 occur, not visible text, and covers quoted references, selectors and
 keyframes

---
 src/animation/animator.ts         |  18 ++--
 src/animation/embed-namespace.ts  |  65 ++++--------
 src/render/element-tree-to-svg.ts |  23 ++--
 src/render/svg-inline.ts          | 171 +++++++++++++++++++-----------
 4 files changed, 144 insertions(+), 133 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 539818d..e565e72 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -15,6 +15,7 @@ import type { AnimationOverlay, TypingOverlay, TapOverlay, SvgOverlay, BlinkOver
 import { escapeHtml } from "../utils/escapeHtml.js";
 import { isTransparentBackground } from "../utils/transparent-background.js";
 import { rootSvgA11y } from "../render/format.js";
+import { renameSvgIds, svgIds } from "../render/svg-inline.js";
 import { getFontInstance, resolveFontKey, withRenderTextMode, glyphDefCount, getGlyphDefsSince, truncateGlyphDefs, beginCharacterFallbackDocument, endCharacterFallbackDocument } from "../render/font-resolution.js";
 import { renderTextAsPath } from "../render/text-to-path.js";
 import { DEFAULT_TRANSITION_MS, frameAdvanceMs, transitionDurationMs } from "./frame-timeline.js";
@@ -391,26 +392,21 @@ function emitCrossfadeOrCutFrame(
  */
 export function dedupeFrameIds(frames: AnimationFrame[]): AnimationFrame[] {
   const seen = new Set<string>();
-  const esc = (s: string) => s.replace(/[.*+?^${}()|[\]\\]/g, "\\$&");
   return frames.map((frame, i) => {
     const svg = frame.svgContent;
     if (svg == null || svg === "") return frame;
-    const defined = new Set<string>();
-    for (const m of svg.matchAll(/\sid="([^"]+)"/g)) defined.add(m[1]);
+    const defined = svgIds(svg);
     const colliding = [...defined].filter((id) => seen.has(id));
     for (const id of defined) seen.add(id);
     if (colliding.length === 0) return frame;
-    let out = svg;
+    const renamed = new Map<string, string>();
     for (const id of colliding) {
-      const nid = `d${i}-${id}`;
-      const e = esc(id);
-      out = out
-        .replace(new RegExp(`(\\sid=")${e}(")`, "g"), `$1${nid}$2`)
-        .replace(new RegExp(`url\\(#${e}\\)`, "g"), `url(#${nid})`)
-        .replace(new RegExp(`((?:xlink:)?href=")#${e}(")`, "g"), `$1#${nid}$2`);
+      let nid = `d${i}-${id}`;
+      while (seen.has(nid)) nid = `d${i}-${nid}`;
       seen.add(nid);
+      renamed.set(id, nid);
     }
-    return { ...frame, svgContent: out };
+    return { ...frame, svgContent: renameSvgIds(svg, (id) => renamed.get(id) ?? id) };
   });
 }
 
diff --git a/src/animation/embed-namespace.ts b/src/animation/embed-namespace.ts
index b20aeca..d44542e 100644
--- a/src/animation/embed-namespace.ts
+++ b/src/animation/embed-namespace.ts
@@ -20,8 +20,8 @@
  *  - **the `--scene-dur` custom property** on `:root`.
  *
  * The fix: rewrite every such name with a per-frame token. The vocabulary is
- * fully controlled (domotion's own renderer/animator emits it), so the rewrite is
- * precise. The token must be a valid CSS-ident prefix (start with a letter).
+ * mostly domotion's own, but captured inline SVGs and icons bring names of theirs
+ * (`rotate`, `clip`, …) along. The token must be a valid CSS-ident prefix (start with a letter).
  *
  * This is the same class of problem the `cast` frame sidesteps by sharing the
  * outer embedded-font builder (`manageFonts: false`); a template runs a fully
@@ -29,8 +29,7 @@
  * namespaced after the fact instead.
  */
 
-const escapeRe = (s: string): string => s.replace(/[.*+?^${}()|[\]\\]/g, "\\$&");
-const byLengthDesc = (a: string, b: string): number => b.length - a.length;
+import { prefixSvgClasses, prefixSvgIds, prefixSvgKeyframes, rewriteSvgNames } from "../render/svg-inline.js";
 
 /** Options for {@link namespaceEmbeddedAnimatedSvg}. */
 export interface NamespaceEmbedOptions {
@@ -55,58 +54,30 @@ export interface NamespaceEmbedOptions {
  * to be a single `<svg>…</svg>` document as produced by `generateAnimatedSvg`.
  */
 export function namespaceEmbeddedAnimatedSvg(svg: string, token: string, opts: NamespaceEmbedOptions = {}): string {
-  let out = svg;
-
-  // 1. Element ids + every reference (url(#id) / (xlink:)href="#id"). Longest
-  //    name first so an id that is a textual prefix of another can't partial-match.
-  const ids = new Set<string>();
-  for (const m of out.matchAll(/\sid="([^"]+)"/g)) ids.add(m[1]);
-  for (const id of [...ids].sort(byLengthDesc)) {
-    const e = escapeRe(id);
-    out = out
-      .replace(new RegExp(`(\\sid=")${e}(")`, "g"), `$1${token}${id}$2`)
-      .replace(new RegExp(`url\\(#${e}\\)`, "g"), `url(#${token}${id})`)
-      .replace(new RegExp(`((?:xlink:)?href=")#${e}(")`, "g"), `$1#${token}${id}$2`);
-  }
+  // 1. Element ids + every reference. Names are only rewritten where names occur
+  //    (attributes and style sheets), never in the document's visible text.
+  let out = prefixSvgIds(svg, token);
 
   // 2. Embedded-font families (`dmfN`). Only the `@font-face` declaration and the
   //    `font-family` attr/decl contexts — never a bare global replace, since the
   //    base64 `src` payload could contain the same byte sequence. Skipped when the
   //    fonts are deferred to a shared outer builder (see NamespaceEmbedOptions).
   if (opts.namespaceFonts !== false) {
-    out = out
-      .replace(/(font-family:\s*")(dmf\d+)(")/g, `$1${token}$2$3`)
-      .replace(/(font-family=")(dmf\d+)(")/g, `$1${token}$2$3`);
+    const families = (css: string): string => css.replace(/(font-family:\s*")(dmf\d+)(")/g, `$1${token}$2$3`);
+    out = rewriteSvgNames(
+      out,
+      (name, value) => name === "font-family" ? value.replace(/^dmf\d+$/, `${token}$&`) : name === "style" ? families(value) : value,
+      families,
+    );
   }
 
-  // 3. `@keyframes` names + their `animation:` references. A keyframe name is a
-  //    domotion-generated token (`fv-0`, `f0-f0a0-0`, …) that never appears as an
-  //    id, class, or inside the (hyphen-free) base64 font data, so a word-boundary
-  //    replace across the whole doc is safe. Longest-first for prefix safety.
-  const keyframes = new Set<string>();
-  for (const m of out.matchAll(/@keyframes\s+([A-Za-z0-9_-]+)/g)) keyframes.add(m[1]);
-  for (const name of [...keyframes].sort(byLengthDesc)) {
-    out = out.replace(new RegExp(`\\b${escapeRe(name)}\\b`, "g"), `${token}${name}`);
-  }
+  // 3. `@keyframes` names + the `animation:` declarations that run them.
+  out = prefixSvgKeyframes(out, token);
 
-  // 4. Classes. Collect the names from `class="…"` attrs (every token is renderer-
-  //    generated), then (a) prefix each token in every class attr, and (b) prefix
-  //    each known name where it appears as a `.name` selector. The selector pass is
-  //    boundary-guarded (`(?![\w-])`) and limited to the collected names so it can
-  //    never touch a decimal like `0.22` / `22.500%` in the CSS.
-  const classes = new Set<string>();
-  for (const m of out.matchAll(/\sclass="([^"]+)"/g)) {
-    for (const t of m[1].split(/\s+/)) if (t !== "") classes.add(t);
-  }
-  out = out.replace(/(\sclass=")([^"]+)(")/g, (_full, a: string, cls: string, c: string) =>
-    a + cls.split(/\s+/).map((t) => (t !== "" ? token + t : t)).join(" ") + c,
-  );
-  for (const name of [...classes].sort(byLengthDesc)) {
-    out = out.replace(new RegExp(`\\.${escapeRe(name)}(?![\\w-])`, "g"), `.${token}${name}`);
-  }
+  // 4. Classes: every `class` token and every class selector.
+  out = prefixSvgClasses(out, token);
 
   // 5. The `--scene-dur` custom property (declaration on `:root` + any `var()`).
-  out = out.replace(/--scene-dur\b/g, `--scene-dur-${token}`);
-
-  return out;
+  const sceneDur = (css: string): string => css.replace(/--scene-dur\b/g, `--scene-dur-${token}`);
+  return rewriteSvgNames(out, (name, value) => name === "style" ? sceneDur(value) : value, sceneDur);
 }
diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 622f2ec..1e9dcf2 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -73,7 +73,7 @@ import {
   setActiveHiDPIFactor,
   type EmbedRemoteImagesOptions,
 } from "../capture/embed.js";
-import { inlineImgSvg, prefixSvgClasses, prefixSvgIds } from "./svg-inline.js";
+import { inlineImgSvg, prefixSvgClasses, prefixSvgIds, prefixSvgKeyframes } from "./svg-inline.js";
 import { hoistDuplicateImagePayloads } from "../post-processing/hoist-image-payloads.js";
 import { propagateTextDecorations } from "../tree-ops/decoration-propagation.js";
 import { getLastCaptureWarnings, logCaptureWarnings, _resetLastCaptureWarnings } from "../capture/warnings.js";
@@ -491,7 +491,7 @@ function paintImage(
     const inlinedNone = svgTextNone != null
       ? inlineImgSvg(svgTextNone, {
           x: ix, y: iy, w: iw, h: ih,
-          par: "none", intrinsic: el.imageIntrinsic, idPrefix: ctx.nextClipId("svgimg"),
+          par: "none", intrinsic: el.imageIntrinsic, idPrefix: ctx.nextClipId("svgimg"), scopeClasses: true,
         })
       : null;
     if (inlinedNone != null) {
@@ -514,7 +514,7 @@ function paintImage(
     if (svgText != null) {
       const inlined = inlineImgSvg(svgText, {
         x: contentX, y: contentY, w: contentW, h: contentH,
-        par, intrinsic: el.imageIntrinsic, idPrefix: ctx.nextClipId("svgimg"),
+        par, intrinsic: el.imageIntrinsic, idPrefix: ctx.nextClipId("svgimg"), scopeClasses: true,
       });
       if (inlined != null) {
         ctx.svgParts.push(
@@ -2376,16 +2376,13 @@ function paintInlineSvg(el: CapturedElement, indent: string, allocClassPrefix?:
   let sized = injectSvgSize(el.svgContent, contentW, contentH);
   const referencePrefix = el.svgReferenceScope != null ? `${idPrefix}svgscope${el.svgReferenceScope}-` : allocClassPrefix?.();
   if (referencePrefix != null) sized = prefixSvgIds(sized, referencePrefix);
-  // DM-1595: namespace CSS class names when this inline SVG carries a `<style>`
-  // block, so two DOM inline SVGs that both define e.g. `.cls-1` can't cross-
-  // contaminate (an SVG `<style>` applies document-wide once emitted). Gated on
-  // `<style>` presence — the common presentation-attribute icon has none, so it
-  // stays byte-identical AND allocates no prefix id (no counter shift). IDs are
-  // intentionally NOT namespaced here: this path relies on the consumer-side
-  // `<use>` resolver, which matches `<use href="#id">` by id ACROSS sibling SVGs
-  // (DM-499), so prefixing ids would break those cross-SVG references.
-  if (allocClassPrefix != null && /<style[\s>]/i.test(sized)) {
-    sized = prefixSvgClasses(sized, `${referencePrefix ?? allocClassPrefix()}class-`);
+  // DM-1595: namespace CSS class and animation names, so two DOM inline SVGs that
+  // both define e.g. `.cls-1` can't cross-contaminate (an SVG `<style>` applies
+  // document-wide once emitted) and the host document's own class rules can't
+  // reach into this one. An unscoped SVG without a `<style>` of its own stays
+  // byte-identical.
+  if (referencePrefix != null && (el.svgReferenceScope != null || /<style[\s>]/i.test(sized))) {
+    sized = prefixSvgKeyframes(prefixSvgClasses(sized, `${referencePrefix}class-`), referencePrefix);
   }
   // Inline SVG icons commonly use fill/stroke="currentColor" so the icon picks
   // up the host's text color. Set the wrapping group's `color` to the captured
diff --git a/src/render/svg-inline.ts b/src/render/svg-inline.ts
index 7add301..c78f0ba 100644
--- a/src/render/svg-inline.ts
+++ b/src/render/svg-inline.ts
@@ -23,6 +23,74 @@
 
 import { r } from "./format.js";
 
+/** A start tag; its attributes' quotes may hold a `>`. */
+const START_TAG = "<[a-zA-Z](?:[^>\"']|\"[^\"]*\"|'[^']*')*>";
+const MARKUP = new RegExp(
+  `<!--[\\s\\S]*?-->|(<style\\b(?:[^>"'/]|"[^"]*"|'[^']*')*>)([\\s\\S]*?)(</style\\s*>)|<!\\[CDATA\\[[\\s\\S]*?\\]\\]>|${START_TAG}`,
+  "gi",
+);
+
+/**
+ * Rewrite an SVG fragment's names where names can occur — attribute values and
+ * style sheets — leaving its text, comments and other markup alone (a visible
+ * `file.f` or `url(#x)` is content, not a reference). `onAttr` gets each
+ * attribute's lower-case name and raw value, `onCss` each `<style>` body. A
+ * fragment without any tag is taken for a bare attribute list.
+ */
+export function rewriteSvgNames(svg: string, onAttr: (name: string, value: string) => string, onCss: (css: string) => string): string {
+  const attributes = (text: string): string =>
+    text.replace(/(\s)([^\s=>"'/]+)(\s*=\s*)(?:"([^"]*)"|'([^']*)')/g, (_m, space: string, name: string, eq: string, double?: string, single?: string) => {
+      const quote = double != null ? "\"" : "'";
+      return `${space}${name}${eq}${quote}${onAttr(name.toLowerCase(), double ?? single ?? "")}${quote}`;
+    });
+  if (!svg.includes("<")) return attributes(` ${svg}`).slice(1);
+  return svg.replace(MARKUP, (m, open?: string, css?: string, close?: string) => {
+    if (open != null) return attributes(open) + onCss(css!) + close!;
+    return m.startsWith("<!") ? m : attributes(m);
+  });
+}
+
+/** Every element id an SVG fragment defines. */
+export function svgIds(svg: string): Set<string> {
+  const ids = new Set<string>();
+  rewriteSvgNames(svg, (name, value) => { if (name === "id" && value !== "") ids.add(value); return value; }, (css) => css);
+  return ids;
+}
+
+const ID_REF_ATTRS = new Set([
+  "aria-activedescendant", "aria-controls", "aria-describedby", "aria-details", "aria-errormessage",
+  "aria-flowto", "aria-labelledby", "aria-owns", "for",
+]);
+
+/** Apply `edit` to the selector part of every rule in a style sheet. */
+function mapSelectors(css: string, edit: (selectors: string) => string): string {
+  return css.replace(/([^{}]*)(\{[^{}]*\})/g, (_rule, selectors: string, body: string) => edit(selectors) + body);
+}
+
+/**
+ * Rename element ids by `mapped`, at their definitions and at every reference:
+ * `href="#…"` / `xlink:href="#…"`, `url(#…)` (quoted or not, in attributes and
+ * style sheets), ARIA and `for` id lists, SMIL `begin` / `end` and `#id`
+ * selectors (by `selected`, where those go by another rule).
+ */
+export function renameSvgIds(svg: string, mapped: (id: string) => string, selected: (id: string) => string = mapped): string {
+  const urls = (text: string): string =>
+    text.replace(/url\(\s*(['"]|&quot;|&apos;|&#39;|&#34;)?#([^)'"\s&]+)\1\s*\)/gi, (_m, quote: string | undefined, id: string) => `url(${quote ?? ""}#${mapped(id)}${quote ?? ""})`);
+  return rewriteSvgNames(
+    svg,
+    (name, value) => {
+      if (name === "id") return mapped(value);
+      if (name === "href" || name === "xlink:href") return value.startsWith("#") ? `#${mapped(value.slice(1))}` : value;
+      if (ID_REF_ATTRS.has(name)) return value.split(/\s+/).map(mapped).join(" ");
+      if (name === "begin" || name === "end") {
+        return value.split(";").map((part) => part.replace(/^(\s*)([\w:.-]+)(\.)/, (_r, space: string, id: string, dot: string) => `${space}${mapped(id)}${dot}`)).join(";");
+      }
+      return name.startsWith("data-") || name.startsWith("aria-") ? value : urls(value);
+    },
+    (css) => urls(mapSelectors(css, (selectors) => selectors.replace(/#(-?[_a-zA-Z][-_a-zA-Z0-9]*)/g, (_s, id: string) => `#${selected(id)}`))),
+  );
+}
+
 /**
  * Prefix every `id="…"`, `href="#…"`, `xlink:href="#…"`, and `url(#…)` in an
  * SVG fragment with `prefix` so its internal references stay self-consistent
@@ -31,34 +99,9 @@ import { r } from "./format.js";
  * `<style>` block are intentionally NOT rewritten — see the module note.
  */
 export function prefixSvgIds(svg: string, prefix: string): string {
-  const ids = new Set<string>();
-  for (const match of svg.matchAll(/\bid\s*=\s*(?:"([^"]+)"|'([^']+)')/gi)) ids.add(match[1] ?? match[2]);
-  const mapped = (id: string) => ids.has(id) ? `${prefix}${id}` : id;
-  let out = svg;
-  out = out.replace(/\bid="([^"]+)"/g, (_m, id: string) => `id="${prefix}${id}"`);
-  out = out.replace(/\bid='([^']+)'/g, (_m, id: string) => `id='${prefix}${id}'`);
-  out = out.replace(
-    /\b(href|xlink:href)="#([^"]+)"/g,
-    (_m, attr: string, id: string) => `${attr}="#${mapped(id)}"`,
-  );
-  out = out.replace(
-    /\b(href|xlink:href)='#([^']+)'/g,
-    (_m, attr: string, id: string) => `${attr}='#${mapped(id)}'`,
-  );
-  out = out.replace(/url\(\s*(['"]?)#([^)'"\s]+)\1\s*\)/gi, (_m, quote: string, id: string) => `url(${quote}#${mapped(id)}${quote})`);
-  const idRefAttrs = "aria-activedescendant|aria-controls|aria-describedby|aria-details|aria-errormessage|aria-flowto|aria-labelledby|aria-owns|for";
-  out = out.replace(new RegExp(`\\b(${idRefAttrs})=("|')([^"']*)\\2`, "gi"), (_m, attr: string, quote: string, value: string) =>
-    `${attr}=${quote}${value.split(/\s+/).map(mapped).join(" ")}${quote}`,
-  );
-  out = out.replace(/\b(begin|end)=("|')([^"']*)\2/gi, (_m, attr: string, quote: string, value: string) =>
-    `${attr}=${quote}${value.split(";").map((part) => part.replace(/^(\s*)([\w:.-]+)(\.)/, (_r, space: string, id: string, dot: string) => `${space}${mapped(id)}${dot}`)).join(";")}${quote}`,
-  );
-  out = out.replace(/(<style\b[^>]*>)([\s\S]*?)(<\/style>)/gi, (_m, open: string, css: string, close: string) =>
-    open + css.replace(/([^{}]*)(\{[^{}]*\})/g, (_rule, selectors: string, body: string) =>
-      selectors.replace(/#(-?[_a-zA-Z][-_a-zA-Z0-9:.]*)/g, (_s, id: string) => `#${mapped(id)}`) + body,
-    ) + close,
-  );
-  return out;
+  const ids = svgIds(svg);
+  // A selector for an id the fragment doesn't have must not reach the host's.
+  return renameSvgIds(svg, (id) => ids.has(id) ? `${prefix}${id}` : id, (id) => `${prefix}${id}`);
 }
 
 /**
@@ -72,28 +115,33 @@ export function prefixSvgIds(svg: string, prefix: string): string {
  *       VALUE (e.g. `stroke-width: 1.5`, `content: ".x"`) is never misread as a
  *       class selector; and
  *   (b) `class="…"` / `class='…'` attribute tokens.
- *
- * Callers gate on `<style>` presence (see {@link inlineImgSvg}) so an SVG with
- * no stylesheet — where class names have no rendering effect — stays
- * byte-identical. Nested at-rules (`@media { … }`) inside an SVG `<style>` are
- * not handled (essentially never present in an SVG asset); the flat
- * `selector { … }` rule shape that design tools emit is.
  */
 export function prefixSvgClasses(svg: string, prefix: string): string {
-  let out = svg;
-  // (a) class selectors inside <style> … </style>, selector-portion only.
-  out = out.replace(/(<style\b[^>]*>)([\s\S]*?)(<\/style>)/gi, (_m, open: string, css: string, close: string) => {
-    const rewritten = css.replace(/([^{}]*)(\{[^{}]*\})/g, (_r, sel: string, block: string) =>
-      sel.replace(/\.(-?[_a-zA-Z][-_a-zA-Z0-9]*)/g, (_c, name: string) => `.${prefix}${name}`) + block,
-    );
-    return open + rewritten + close;
-  });
-  // (b) class attribute tokens (single- or double-quoted).
-  out = out.replace(/\bclass=("|')([^"']*)\1/gi, (_m, q: string, val: string) => {
-    const toks = val.split(/\s+/).filter(Boolean).map((t) => `${prefix}${t}`).join(" ");
-    return `class=${q}${toks}${q}`;
-  });
-  return out;
+  return rewriteSvgNames(
+    svg,
+    (name, value) => name === "class" ? value.split(/\s+/).filter(Boolean).map((t) => `${prefix}${t}`).join(" ") : value,
+    (css) => mapSelectors(css, (selectors) => selectors.replace(/\.(-?[_a-zA-Z][-_a-zA-Z0-9]*)/g, (_c, name: string) => `.${prefix}${name}`)),
+  );
+}
+
+/**
+ * Namespace the `@keyframes` an SVG fragment defines, and the `animation` /
+ * `animation-name` declarations that run them — animation names are
+ * document-global too, and the last `@keyframes` of a name wins for everyone.
+ */
+export function prefixSvgKeyframes(svg: string, prefix: string): string {
+  const names = new Set<string>();
+  const rule = /(@(?:-webkit-)?keyframes\s+)(["']?)([-_a-zA-Z][-_a-zA-Z0-9]*)\2/g;
+  rewriteSvgNames(svg, (_name, value) => value, (css) => { for (const m of css.matchAll(rule)) names.add(m[3]); return css; });
+  if (names.size === 0) return svg;
+  const uses = (css: string): string =>
+    css.replace(/((?:^|[;{\s])(?:-webkit-)?animation(?:-name)?\s*:)([^;{}]*)/gi, (_m, property: string, value: string) =>
+      property + value.replace(/(?<![-\w.#%])-?[_a-zA-Z][-_a-zA-Z0-9]*(?![-\w(])/g, (name) => names.has(name) ? `${prefix}${name}` : name));
+  return rewriteSvgNames(
+    svg,
+    (name, value) => name === "style" ? uses(value) : value,
+    (css) => uses(css).replace(rule, (_m, at: string, quote: string, name: string) => `${at}${quote}${prefix}${name}${quote}`),
+  );
 }
 
 /** Read a numeric SVG length attribute (`width`/`height`), stripping a `px`
@@ -145,6 +193,9 @@ export interface InlineSvgPlacement {
   intrinsic?: { w: number; h: number } | null;
   /** Unique per-document prefix for namespacing the SVG's internal ids. */
   idPrefix: string;
+  /** Namespace class names even when the SVG has no `<style>` of its own, so the
+   *  host document's class rules (frame wrappers, …) can't reach its elements. */
+  scopeClasses?: boolean;
 }
 
 /**
@@ -161,7 +212,14 @@ export interface InlineSvgPlacement {
  * any zoom.
  */
 export function inlineImgSvg(svgText: string, p: InlineSvgPlacement): string | null {
-  const tag = /<svg\b([^>]*)>/i.exec(svgText);
+  // Namespace ids and animation names over the whole source: the root tag may
+  // refer into the body (`aria-labelledby`) and the body to the root.
+  const source = prefixSvgKeyframes(prefixSvgIds(svgText, p.idPrefix), p.idPrefix);
+  // DM-1593: also namespace CSS class names — by default only when the SVG
+  // carries a `<style>` block, so the common presentation-attribute export stays
+  // byte-identical; a host whose own style sheet has classes asks for it always.
+  const named = p.scopeClasses === true || /<style[\s>]/i.test(svgText) ? prefixSvgClasses(source, p.idPrefix) : source;
+  const tag = /<svg\b((?:[^>"']|"[^"]*"|'[^']*')*)>/i.exec(named);
   if (tag == null) return null;
   let attrs = tag[1];
 
@@ -181,19 +239,8 @@ export function inlineImgSvg(svgText: string, p: InlineSvgPlacement): string | n
 
   // Strip the attrs we re-declare (keep xmlns / class / style / role / etc.).
   attrs = stripAttrs(attrs, ["x", "y", "width", "height", "viewBox", "preserveAspectRatio"]);
-  // Namespace ids: the root tag's own attrs (a root `id`/`url(#…)` is rare but
-  // legal) and the whole body (defs + references).
-  let rootAttrs = prefixSvgIds(attrs, p.idPrefix).replace(/\s+$/, "");
-  let body = prefixSvgIds(svgText.slice(tag.index + tag[0].length), p.idPrefix);
-  // DM-1593: also namespace CSS class names — but ONLY when the SVG carries a
-  // `<style>` block (the only way a class can affect rendering, so the common
-  // presentation-attribute export stays byte-identical). Gated on the whole
-  // source: `<style>` + `class="…"` live in the body; a `class` on the root svg
-  // is rare but handled too.
-  if (/<style[\s>]/i.test(svgText)) {
-    rootAttrs = prefixSvgClasses(rootAttrs, p.idPrefix);
-    body = prefixSvgClasses(body, p.idPrefix);
-  }
+  const rootAttrs = attrs.replace(/\s+$/, "");
+  const body = named.slice(tag.index + tag[0].length);
 
   const open =
     `<svg${rootAttrs}` +
-- 
2.43.0


From be161ce481b6596e519d37aa89e2710af425ac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:43 +0000
Subject: [PATCH 27/39] fix: svg overlays keep their class and animation names
 apart from the host document's

---
 src/cli/animate.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index c0833ce..d257278 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -75,7 +75,7 @@ import { compressEmbeddedFontsToWoff2, optimizeSvg } from "../post-processing/in
 import { frameAdvanceMs } from "../animation/frame-timeline.js";
 import { resolveMotionPreset, resolveEasingPreset } from "../animation/motion-presets.js";
 import { namespaceEmbeddedAnimatedSvg } from "../animation/embed-namespace.js";
-import { prefixSvgIds, prefixSvgClasses } from "../render/svg-inline.js";
+import { prefixSvgIds, prefixSvgClasses, prefixSvgKeyframes } from "../render/svg-inline.js";
 import { escapeAttr } from "../utils/escapeHtml.js";
 import { castToAnimatedSvg } from "../terminal/index.js";
 import { transitionSchema } from "../animation/transition-schema.js";
@@ -3754,11 +3754,10 @@ function namespaceSvgIds(svg: string, prefix: string): string {
   inner = inner.replace(/<svg\b[^>]*>/, "");
   inner = inner.replace(/<\/svg>\s*$/, "");
   inner = prefixSvgIds(inner, prefix);
-  // DM-1595: also namespace CSS class names when the overlay SVG carries a
-  // `<style>` block, so two svg overlays that both define e.g. `.cls-1` can't
-  // cross-contaminate. Gated on `<style>` presence → no-op (byte-identical) for
-  // the common presentation-attribute overlay.
-  if (/<style[\s>]/i.test(inner)) inner = prefixSvgClasses(inner, prefix);
+  // DM-1595: also namespace CSS class and animation names, so two svg overlays
+  // that both define e.g. `.cls-1` can't cross-contaminate, nor the host's own
+  // class rules reach the overlay.
+  inner = prefixSvgKeyframes(prefixSvgClasses(inner, prefix), prefix);
   return inner;
 }
 
-- 
2.43.0


From 83f44e0b0546105e7379beeec7397e5ecf8a98c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:43 +0000
Subject: [PATCH 28/39] fix: composite layer wrappers never take a name their
 namespaced content already uses

---
 src/animation/composite.ts | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/animation/composite.ts b/src/animation/composite.ts
index 538abf4..92147a6 100644
--- a/src/animation/composite.ts
+++ b/src/animation/composite.ts
@@ -254,6 +254,14 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
         mode: r.mode, windowMs: r.windowMs,
       });
     }
+    // Names of the composite's own wrappers, kept clear of whatever the namespaced
+    // content defines (a source id `clip` becomes `c0_clip` as well).
+    const named = content;
+    const own = (suffix: string): string => {
+      let name = `${token}${suffix}`;
+      while (named.includes(name)) name = `${token}_${name.slice(token.length)}`;
+      return name;
+    };
     // 3. Strip the outer wrapper and re-nest at the layer's box (a nested <svg>
     //    with a viewBox scales the content to width×height and positions it).
     const inner = innerOf(content);
@@ -261,7 +269,7 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
     let nested = `<svg x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}" viewBox="${vb}" preserveAspectRatio="none" overflow="visible">${inner}</svg>`;
 
     if (r.layer.clip === true) {
-      const clipId = `${token}clip`;
+      const clipId = own("clip");
       const rad = r.layer.clipRadius ?? 0;
       defsParts.push(`<clipPath id="${clipId}"><rect x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}"${rad ? ` rx="${fmt(rad)}"` : ""}/></clipPath>`);
       nested = `<g clip-path="url(#${clipId})">${nested}</g>`;
@@ -276,7 +284,7 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
     const clipScales: CompositeLayerAnimation[] = [];
     (r.layer.animations ?? []).forEach((a, ai) => {
       if (a.property === "clipScaleX" || a.property === "clipScaleY") { clipScales.push(a); return; }
-      const name = `${token}a${ai}`;
+      const name = own(`a${ai}`);
       const sPct = clampPct(((a.start ?? 0) / master) * 100);
       const ePct = clampPct((((a.start ?? 0) + (a.duration ?? master)) / master) * 100);
       const prop = a.property === "opacity" ? "opacity" : "transform";
@@ -299,8 +307,9 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
       const sx = clipScales.find((a) => a.property === "clipScaleX");
       const sy = clipScales.find((a) => a.property === "clipScaleY");
       const anchor = clipScales[0];
-      const name = `${token}clipa`;
-      const clipId = `${token}rclip`;
+      const name = own("clipa");
+      const clipId = own("rclip");
+      const clipper = own("clipper");
       const sPct = clampPct(((anchor.start ?? 0) / master) * 100);
       const ePct = clampPct((((anchor.start ?? 0) + (anchor.duration ?? master)) / master) * 100);
       const fromT = `scale(${Number(sx?.from ?? 1)},${Number(sy?.from ?? 1)})`;
@@ -318,12 +327,12 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
       const ox = resolveClipOriginPx(sx?.transformOrigin ?? "left", r.x, r.w);
       const oy = resolveClipOriginPx(sy?.transformOrigin ?? "top", r.y, r.h);
       const rad = r.layer.clipRadius != null ? ` rx="${fmt(r.layer.clipRadius)}"` : "";
-      defsParts.push(`<clipPath id="${clipId}" clipPathUnits="userSpaceOnUse"><rect class="${token}clipper" x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}"${rad}/></clipPath>`);
-      styleParts.push(`@keyframes ${name}{0%,${fmt(sPct)}%{transform:${fromT}}${fmt(ePct)}%,100%{transform:${toT}}} .${token}clipper{transform-origin:${fmt(ox)}px ${fmt(oy)}px;animation:${name} ${fmt(masterSec)}s ${anchor.easing ?? "ease"} infinite}`);
+      defsParts.push(`<clipPath id="${clipId}" clipPathUnits="userSpaceOnUse"><rect class="${clipper}" x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}"${rad}/></clipPath>`);
+      styleParts.push(`@keyframes ${name}{0%,${fmt(sPct)}%{transform:${fromT}}${fmt(ePct)}%,100%{transform:${toT}}} .${clipper}{transform-origin:${fmt(ox)}px ${fmt(oy)}px;animation:${name} ${fmt(masterSec)}s ${anchor.easing ?? "ease"} infinite}`);
       clipAttr = ` clip-path="url(#${clipId})"`;
     }
 
-    groups.push(`<g class="${token}layer"${clipAttr}${groupStyle}>${nested}</g>`);
+    groups.push(`<g class="${own("layer")}"${clipAttr}${groupStyle}>${nested}</g>`);
   }
 
   // Transparent (no backdrop rect) for every transparent CSS form — keywords,
-- 
2.43.0


From 90f7a5b096b0fe85a3fc68f96a51c7d0b68e6951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:43 +0000
Subject: [PATCH 29/39] fix: a bare zero interpolates with a length or
 percentage instead of jumping

---
 src/animation/easing.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/animation/easing.ts b/src/animation/easing.ts
index cb6e3ba..65c5599 100644
--- a/src/animation/easing.ts
+++ b/src/animation/easing.ts
@@ -173,6 +173,12 @@ export function interpolateCssValue(from: string, to: string, t: number): string
   }
   gParts.push(to.slice(last));
 
+  // A bare zero takes the other side's unit (`translateX(0)` → `translateX(-100px)`).
+  for (let i = 0; i < Math.min(fNums.length, gNums.length); i++) {
+    const [f, g] = [fParts[i + 1], gParts[i + 1]].map((part) => /^[a-z%]*/i.exec(part)![0]);
+    if (f === "" && fNums[i] === 0) fParts[i + 1] = g + fParts[i + 1];
+    else if (g === "" && gNums[i] === 0) gParts[i + 1] = f + gParts[i + 1];
+  }
   // Skeletons (the literal parts) must match to interpolate meaningfully.
   if (fParts.length !== gParts.length || fParts.join("\0") !== gParts.join("\0")) {
     return t < 0.5 ? from : to;
-- 
2.43.0


From b98726e58a8a083b297022c26b465b45de8ebfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:43 +0000
Subject: [PATCH 30/39] fix: embedded timelines hold their last shown moment
 and are cut, not squeezed, at the end of the host loop

---
 src/animation/embed-timeline.ts | 178 +++++++++++++++++++++++---------
 1 file changed, 128 insertions(+), 50 deletions(-)

diff --git a/src/animation/embed-timeline.ts b/src/animation/embed-timeline.ts
index 67db620..6564f2b 100644
--- a/src/animation/embed-timeline.ts
+++ b/src/animation/embed-timeline.ts
@@ -44,6 +44,7 @@
  */
 
 import { fmt, clampPct } from "./svg-meta.js";
+import { interpolateCssValue, isBakeableEasing, resolveEasing } from "./easing.js";
 
 /**
  * How an embedded layer's own timeline maps onto its container's master loop
@@ -122,42 +123,106 @@ function tokenizeEntry(entry: string): string[] {
   return tokens;
 }
 
+/** One parsed keyframe stop: its percentage, declarations, and own timing function. */
+interface Stop { at: number; decls: Map<string, string>; timing: string | undefined }
+
+/** Parse a keyframes body into stops in time order, a comma list one by one. */
+function parseStops(inner: string): Stop[] {
+  const stops: Stop[] = [];
+  for (const m of inner.matchAll(/((?:from|to|[\d.]+%)(?:\s*,\s*(?:from|to|[\d.]+%))*)\s*\{([^{}]*)\}/g)) {
+    for (const sel of m[1].split(",")) {
+      const s = sel.trim();
+      const decls = new Map<string, string>();
+      let timing: string | undefined;
+      for (const decl of m[2].split(";")) {
+        const colon = decl.indexOf(":");
+        if (colon < 0) continue;
+        const property = decl.slice(0, colon).trim();
+        const value = decl.slice(colon + 1).trim();
+        if (property === "animation-timing-function") timing = value;
+        else decls.set(property, value);
+      }
+      stops.push({ at: s === "from" ? 0 : s === "to" ? 100 : parseFloat(s), decls, timing });
+    }
+  }
+  return stops.map((s, i) => ({ s, i })).sort((x, y) => x.s.at - y.s.at || x.i - y.i).map((x) => x.s);
+}
+
+const isStepEnd = (timing: string): boolean => /^(step-end|steps\(\s*1\s*(,\s*(jump-)?end\s*)?\))$/.test(timing);
+
+/**
+ * The values on screen in the last instant of the period — what the content
+ * freezes on. Under `step-end` a final stop is never shown: it takes effect only
+ * at the very end, where the loop has already started over.
+ */
+function lastMoment(stops: Stop[], timing: string): Map<string, string> {
+  const last = new Map<string, string>();
+  const ruling = new Map<string, string>();
+  for (const stop of stops) {
+    for (const [property, value] of stop.decls) {
+      if (stop.at < 100 || !last.has(property) || !isStepEnd(ruling.get(property)!)) last.set(property, value);
+      if (stop.at < 100) ruling.set(property, stop.timing ?? timing);
+    }
+  }
+  return last;
+}
+
+const declsText = (decls: Map<string, string>, timing?: string): string =>
+  [...decls, ...(timing != null ? [["animation-timing-function", timing]] : [])].map(([property, value]) => `${property}:${value}`).join(";");
+
+/**
+ * The stops that stand in for the segment `from`→`to` when only its first part
+ * (up to `until`, where `from.at < until < to.at`) fits into the loop: the value
+ * reached at the cut, and for an eased segment the curve up to there. Null when
+ * the values can't be interpolated stop to stop.
+ */
+function cutSegment(from: Stop, to: Stop, until: number, timing: string): Stop[] | null {
+  const t = from.timing ?? timing;
+  if (isStepEnd(t)) return [{ at: until, decls: from.decls, timing: undefined }];
+  if ([...to.decls.keys()].join() !== [...from.decls.keys()].join() || !isBakeableEasing(t)) return null;
+  const ease = resolveEasing(t);
+  const end = (until - from.at) / (to.at - from.at);
+  const n = t.trim() === "linear" || declsText(from.decls) === declsText(to.decls) ? 1 : Math.max(2, Math.ceil(24 * end));
+  return Array.from({ length: n }, (_, k) => {
+    const x = (end * (k + 1)) / n;
+    return {
+      at: from.at + (to.at - from.at) * x,
+      decls: new Map([...from.decls].map(([property, value]) => [property, interpolateCssValue(value, to.decls.get(property)!, ease(x))])),
+      timing: "linear",
+    };
+  });
+}
+
 /**
  * Remap a single `@keyframes` block's stop percentages into the sub-window and
  * add the leading / trailing hold stops. `inner` is the block body (the stops);
- * returns the rewritten body.
+ * returns the rewritten body. Whatever lies past the loop's end is cut off there.
  */
-function remapKeyframeBody(inner: string, offsetPct: number, scale: number): string {
-  const stopRe = /(from|to|[\d.]+%(?:\s*,\s*[\d.]+%)*)\s*\{([^{}]*)\}/g;
-  const remapped: string[] = [];
-  let firstDecls: string | null = null;
-  let lastDecls: string | null = null;
-  let minOrig = Infinity;
-  let maxOrig = -Infinity;
-  let m: RegExpExecArray | null;
-  while ((m = stopRe.exec(inner)) != null) {
-    const selector = m[1];
-    const decls = m[2].trim();
-    const newSelectors: string[] = [];
-    for (const sel of selector.split(",")) {
-      const s = sel.trim();
-      const orig = s === "from" ? 0 : s === "to" ? 100 : parseFloat(s);
-      if (orig < minOrig) {
-        minOrig = orig;
-        firstDecls = decls;
-      }
-      if (orig > maxOrig) {
-        maxOrig = orig;
-        lastDecls = decls;
-      }
-      newSelectors.push(`${fmt(clampPct(offsetPct + orig * scale))}%`);
-    }
-    remapped.push(`${newSelectors.join(", ")} { ${decls} }`);
+function remapKeyframeBody(inner: string, offsetPct: number, scale: number, timing: string): string {
+  const stops = parseStops(inner);
+  if (stops.length === 0) return inner; // nothing parsed — leave as-is
+  const host = (at: number): number => offsetPct + at * scale;
+  const first = stops[0];
+  let last = lastMoment(stops, timing);
+  const body: Stop[] = [];
+  for (const [i, stop] of stops.entries()) {
+    if (host(stop.at) <= 100) { body.push(stop.at < 100 ? stop : { ...stop, decls: last }); continue; }
+    const prev = stops[i - 1];
+    const cut = prev != null && host(prev.at) < 100 ? cutSegment(prev, stop, (100 - offsetPct) / scale, timing) : null;
+    if (cut != null && cut.length > 0) {
+      if (cut.length > 1) body[body.length - 1] = { ...prev!, timing: "linear" };
+      body.push(...cut.slice(0, -1));
+      last = cut[cut.length - 1].decls;
+    } else last = prev != null && host(prev.at) >= 100 ? prev.decls : stop.decls;
+    break;
   }
-  if (firstDecls == null || lastDecls == null) return inner; // nothing parsed — leave as-is
-  const head = `0% { ${firstDecls} }`;
-  const tail = `100% { ${lastDecls} }`;
-  return `${head} ${remapped.join(" ")} ${tail}`;
+  const out = [
+    { at: 0, decls: first.decls, timing: undefined as string | undefined },
+    ...body.map((s) => ({ ...s, at: clampPct(host(s.at)) })),
+    { at: 100, decls: last, timing: undefined },
+  ];
+  // Stops a hair apart (a hard cut) must stay apart, however short the window.
+  return out.map((s) => `${Number(s.at.toFixed(6))}% { ${declsText(s.decls, s.timing)} }`).join(" ");
 }
 
 /**
@@ -189,32 +254,37 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
   // for the rest of the master loop. No keyframe remap.
   if (mode === "loop") {
     if (startMs <= 0) return svg; // already starts at the origin and loops
+    // Each entry of the list keeps its own clock: only those on the content's
+    // period are delayed.
     const delayCss = (css: string): string =>
-      css.replace(/animation:\s*([^;}"]+)/g, (full: string, value: string) => {
-        const isPeriodMatch = splitTopLevel(value).some((entry) =>
-          tokenizeEntry(entry).some((t) => {
-            const sec = parseTimeSec(t);
-            return sec != null && Math.abs(sec - periodSec) <= tol;
-          }),
-        );
-        return isPeriodMatch ? `${full};animation-delay:${fmt(startSec)}s;animation-fill-mode:backwards` : full;
+      css.replace(/(?<![\w-])animation:\s*([^;}"]+)/g, (full: string, value: string) => {
+        const entries = splitTopLevel(value).map((entry) => {
+          const tokens = tokenizeEntry(entry);
+          const times = tokens.map(parseTimeSec).filter((sec): sec is number => sec != null);
+          const matched = times.length > 0 && Math.abs(times[0] - periodSec) <= tol;
+          const fill = tokens.find((t) => FILL_MODES.has(t)) ?? "none";
+          return matched
+            ? { matched, delay: startSec + (times[1] ?? 0), fill: fill === "forwards" || fill === "both" ? "both" : "backwards" }
+            : { matched, delay: times[1] ?? 0, fill };
+        });
+        return entries.some((e) => e.matched)
+          ? `${full};animation-delay:${entries.map((e) => `${fmt(e.delay)}s`).join(",")};animation-fill-mode:${entries.map((e) => e.fill).join(",")}`
+          : full;
       });
-    return svg
-      .replace(/<style>([\s\S]*?)<\/style>/g, (_full, css: string) => `<style>${delayCss(css)}</style>`)
-      .replace(/style="([^"]*animation:[^"]*)"/g, (_full, css: string) => `style="${delayCss(css)}"`);
+    return mapTimelineCss(svg, delayCss);
   }
 
   // Nothing to do: content already starts at the origin and fills the loop.
-  if (offsetPct <= 1e-6 && Math.abs(scale - 1) <= 1e-6) return svg;
+  if (offsetPct <= 1e-6 && Math.abs(scale - 1) <= 1e-6 && Math.abs(periodMs - masterMs) <= 1e-6) return svg;
 
   // Pass 1: retime matching animations + collect the keyframe names they drive.
   // Untouched declarations (e.g. a fixed-period cursor blink) are returned
   // byte-for-byte so only the retimed lines change. The set is shared across
   // every `<style>` block AND inline `style` attribute — the caret track's
   // shorthands live inline while its `@keyframes` live in its local `<style>`.
-  const retimed = new Set<string>();
+  const retimed = new Map<string, string>();
   const retimeCss = (css: string): string =>
-    css.replace(/animation:\s*([^;}"]+)/g, (full: string, value: string) => {
+    css.replace(/(?<![\w-])animation:\s*([^;}"]+)/g, (full: string, value: string) => {
       let changed = false;
       const entries = splitTopLevel(value).map((entry) => {
         const tokens = tokenizeEntry(entry);
@@ -224,7 +294,7 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
           if (Math.abs(sec - periodSec) <= tol) {
             const name = tokens.find((t) => parseTimeSec(t) == null && /^[A-Za-z_-][\w-]*$/.test(t) && !ANIM_KEYWORDS.has(t));
             if (name != null) {
-              retimed.add(name);
+              retimed.set(name, tokens.find((t) => /^(linear|ease(-in|-out|-in-out)?|step-(start|end)|(cubic-bezier|steps|linear)\(.*)$/.test(t)) ?? "ease");
               tokens[i] = `${fmt(masterSec)}s`;
               changed = true;
             }
@@ -235,18 +305,26 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
       });
       return changed ? `animation:${entries.join(",")}` : full;
     });
-  let out = svg
-    .replace(/<style>([\s\S]*?)<\/style>/g, (_full, css: string) => `<style>${retimeCss(css)}</style>`)
-    .replace(/style="([^"]*animation:[^"]*)"/g, (_full, css: string) => `style="${retimeCss(css)}"`);
+  let out = mapTimelineCss(svg, retimeCss);
   // Pass 2: remap the keyframes those animations drive.
   out = out.replace(
     /@keyframes\s+([\w-]+)\s*\{((?:[^{}]*\{[^{}]*\})*[^{}]*)\}/g,
     (full: string, name: string, inner: string) =>
-      retimed.has(name) ? `@keyframes ${name} { ${remapKeyframeBody(inner, offsetPct, scale)} }` : full,
+      retimed.has(name) ? `@keyframes ${name} { ${remapKeyframeBody(inner, offsetPct, scale, retimed.get(name)!)} }` : full,
   );
   return out;
 }
 
+/** Apply `edit` to every style sheet and every inline style that runs animations. */
+function mapTimelineCss(svg: string, edit: (css: string) => string): string {
+  return svg
+    .replace(/(<style\b[^>]*>)([\s\S]*?)<\/style>/g, (_full, open: string, css: string) => `${open}${edit(css)}</style>`)
+    .replace(/(\sstyle=")([^"]*animation:[^"]*)"/g, (_full, open: string, css: string) => `${open}${edit(css)}"`)
+    .replace(/(\sstyle=')([^']*animation:[^']*)'/g, (_full, open: string, css: string) => `${open}${edit(css)}'`);
+}
+
+const FILL_MODES = new Set(["forwards", "backwards", "both"]);
+
 /** Animation-shorthand keywords that are never the `animation-name`. */
 const ANIM_KEYWORDS = new Set<string>([
   "linear", "ease", "ease-in", "ease-out", "ease-in-out", "step-start", "step-end",
-- 
2.43.0


From 72b62b1e5d83800f71f551fc02aceb9cddd7b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:17 +0000
Subject: [PATCH 31/39] fix: the demo pointer jumps on instant moves, is taken
 over mid-slide from where it is, and is cut at the loop's end

---
 src/animation/cursor-overlay.ts | 98 +++++++++++++++++++++++++--------
 1 file changed, 76 insertions(+), 22 deletions(-)

diff --git a/src/animation/cursor-overlay.ts b/src/animation/cursor-overlay.ts
index 45e1d83..c00b326 100644
--- a/src/animation/cursor-overlay.ts
+++ b/src/animation/cursor-overlay.ts
@@ -106,7 +106,8 @@ export type SelectorResolver = (sel: string, frameIndex: number) => { x: number;
 /** DM-1106: hit-tester for the cursor TYPE at a viewport point in a given frame. */
 export type CursorAtResolver = (x: number, y: number, frameIndex: number) => string;
 
-interface KeyframePoint { t: number; x: number; y: number; visible: boolean; cursor?: string }
+/** `jump`: reached at once at `t` — the pointer rests at the previous point until then. */
+interface KeyframePoint { t: number; x: number; y: number; visible: boolean; cursor?: string; jump?: boolean }
 interface ResolvedClick { t: number; x: number; y: number; button: "primary" | "secondary" | "middle"; style: CursorStyle }
 /** A cursor-keyword timeline entry: from time `t` the active glyph is `cursor`
  *  (or null = cursor hidden). DM-1106. */
@@ -164,10 +165,21 @@ export function resolveCursorScript(
   let curX = 0;
   let curY = 0;
 
-  const pushKey = (t: number, x: number, y: number, vis: boolean, cursor?: string): void => {
-    positions.push({ t, x, y, visible: vis, cursor });
+  const pushKey = (t: number, x: number, y: number, vis: boolean, cursor?: string, jump?: boolean): void => {
+    positions.push({ t, x, y, visible: vis, cursor, ...(jump ? { jump } : {}) });
     curX = x; curY = y;
   };
+  // Where the pointer is at `t` — mid-way while a slide is running.
+  const positionAt = (t: number): { x: number; y: number } =>
+    positions.length > 0 ? stateAtTime(positions, t) : { x: curX, y: curY };
+  // An event that takes the pointer over mid-slide ends the slide right there.
+  const interruptAt = (t: number): void => {
+    const last = positions[positions.length - 1];
+    if (last == null || last.t <= t) return;
+    const at = positionAt(t);
+    positions.pop();
+    pushKey(t, at.x, at.y, last.visible, last.cursor);
+  };
 
   const frameForT = (t: number): number => {
     let idx = 0;
@@ -179,14 +191,19 @@ export function resolveCursorScript(
   };
 
   for (const ev of events) {
+    if (ev.t > totalDurationMs) break; // never reached: the loop starts over first
     if (ev.type === "show") {
-      pushKey(ev.t, ev.x, ev.y, true, ev.cursor);
+      interruptAt(ev.t);
+      pushKey(ev.t, ev.x, ev.y, true, ev.cursor, true);
     } else if (ev.type === "hide") {
+      interruptAt(ev.t);
       pushKey(ev.t, curX, curY, false);
     } else if (ev.type === "move") {
       const dur = ev.duration ?? 0;
-      const target = resolveMoveTarget(ev, curX, curY, frameForT(ev.t), resolveSelector);
+      const from = positionAt(ev.t);
+      const target = resolveMoveTarget(ev, from.x, from.y, frameForT(ev.t), resolveSelector);
       if (target == null) continue;
+      interruptAt(ev.t);
       if (dur > 0) {
         // Anchor the cursor at its previous spot when the move begins, then
         // interpolate to the target over `dur`, so it slides rather than popping
@@ -196,14 +213,16 @@ export function resolveCursorScript(
         pushKey(ev.t, curX, curY, true, ev.cursor);
         pushKey(ev.t + dur, target.x, target.y, true, ev.cursor);
       } else {
-        pushKey(ev.t, target.x, target.y, true, ev.cursor);
+        pushKey(ev.t, target.x, target.y, true, ev.cursor, true);
       }
     } else if (ev.type === "click") {
       const button = ev.button ?? "primary";
       const style: CursorStyle = { ...baseStyle, ...(ev.style ?? {}) };
-      clicks.push({ t: ev.t, x: curX, y: curY, button, style });
+      const at = positionAt(ev.t);
+      clicks.push({ t: ev.t, x: at.x, y: at.y, button, style });
     }
   }
+  interruptAt(totalDurationMs); // a slide past the end is cut off by the loop
 
   // Always anchor an initial keyframe at t=0 with visibility `false` so the
   // animation doesn't accidentally show the cursor at (0, 0) before the
@@ -226,16 +245,16 @@ export function resolveCursorScript(
 }
 
 /** Interpolated cursor state at time `t` from the position keyframes. Position
- *  lerps within a keyframe interval; visibility + the per-segment cursor
- *  override are step-held from the interval's start keyframe. */
+ *  lerps within a keyframe interval (or rests until a jump); visibility + the
+ *  per-segment cursor override are step-held from the interval's start keyframe. */
 function stateAtTime(positions: KeyframePoint[], t: number): { x: number; y: number; visible: boolean; cursor?: string } {
-  if (t <= positions[0].t) return positions[0];
+  if (t < positions[0].t) return positions[0];
   const n = positions.length;
   for (let i = 0; i < n - 1; i++) {
     const a = positions[i], b = positions[i + 1];
-    if (t >= a.t && t <= b.t) {
-      const span = b.t - a.t;
-      const f = span > 0 ? (t - a.t) / span : 0;
+    if (t >= a.t && t < b.t) {
+      if (b.jump) return a;
+      const f = (t - a.t) / (b.t - a.t);
       return { x: a.x + (b.x - a.x) * f, y: a.y + (b.y - a.y) * f, visible: a.visible, cursor: a.cursor };
     }
   }
@@ -264,19 +283,27 @@ function buildCursorTimeline(
   const timeline: CursorTimelineEntry[] = [];
   let prev = cursorAtTime(0);
   timeline.push({ t: 0, cursor: prev });
-  for (let t = step; t <= totalDurationMs; t += step) {
+  // The script's own moments are sampled too, so that nothing shorter than a
+  // step (a brief show, say) is missed.
+  const samples = positions.map((p) => p.t).filter((t) => t > 0 && t <= totalDurationMs);
+  for (let t = step; t <= totalDurationMs; t += step) samples.push(t);
+  samples.sort((a, b) => a - b);
+  let from = 0;
+  for (const t of samples) {
     const c = cursorAtTime(t);
-    if (c !== prev) {
-      // Refine the crossing time in (t-step, t] so the switch lands on the
-      // boundary, not the sample grid.
-      let lo = t - step, hi = t;
+    // Refine the crossing times in (from, t] so each switch lands on the
+    // boundary, not the sample grid.
+    for (let guard = 0; c !== prev && guard < 8; guard++) {
+      let lo = from, hi = t;
       for (let k = 0; k < 14; k++) {
         const mid = (lo + hi) / 2;
         if (cursorAtTime(mid) === prev) lo = mid; else hi = mid;
       }
-      timeline.push({ t: Math.min(totalDurationMs, hi), cursor: c });
-      prev = c;
+      prev = cursorAtTime(hi);
+      timeline.push({ t: Math.min(totalDurationMs, hi), cursor: prev });
+      from = hi;
     }
+    from = t;
   }
   if (timeline[timeline.length - 1].t < totalDurationMs) {
     timeline.push({ t: totalDurationMs, cursor: prev });
@@ -338,6 +365,32 @@ function pct(frac: number): string {
   return `${Number((frac * 100).toFixed(4))}%`;
 }
 
+/** The position track's stops. Of several points at one moment the first is where
+ *  the pointer arrives (a hair earlier) and the last where it goes on from; before
+ *  a jump it rests. */
+function positionStops(positions: KeyframePoint[], totalDurationMs: number): string {
+  const keys: { at: number; p: KeyframePoint }[] = [];
+  for (const p of positions) {
+    const at = Number(((p.t / totalDurationMs) * 100).toFixed(4));
+    const last = keys[keys.length - 1];
+    if (last != null && last.at === at) {
+      const arrived = keys.length > 1 && keys[keys.length - 2].at > at - 0.00015;
+      if (at === 0 || arrived || (last.p.x === p.x && last.p.y === p.y)) {
+        keys.pop();
+        keys.push({ at, p: { ...p, jump: last.p.jump } });
+        continue;
+      }
+      last.at = at - 0.0001;
+    }
+    keys.push({ at, p });
+  }
+  return keys.map(({ at, p }, i) => {
+    const next = keys[i + 1];
+    const rest = next?.p.jump && (next.p.x !== p.x || next.p.y !== p.y) ? ";animation-timing-function:step-end" : "";
+    return `${Number(at.toFixed(4))}%{transform:translate(${num(p.x)}px,${num(p.y)}px)${rest}}`;
+  }).join("");
+}
+
 /**
  * DM-1507: the cursor overlay is emitted as CSS `@keyframes`, NOT SMIL. SMIL
  * (`<animateTransform>`/`<animate>`) runs on the SVG's *own* timeline while the
@@ -363,7 +416,7 @@ export function cursorOverlayMarkup(
   // Position track — linear translate along the keyframes (holds are duplicate
   // consecutive values, exactly as under SMIL). keyTimes start at 0 and end at 1.
   const posName = `co-pos-${uid}`;
-  kf.push(`@keyframes ${posName}{${positions.map((p) => `${pct(p.t / totalDurationMs)}{transform:translate(${num(p.x)}px,${num(p.y)}px)}`).join("")}}`);
+  kf.push(`@keyframes ${posName}{${positionStops(positions, totalDurationMs)}}`);
   const posAnim = `${posName} ${totalSec}s linear infinite`;
 
   // Pulse fragments — one per click; each pushes its own keyframes into `kf`.
@@ -416,7 +469,8 @@ ${pulseMarkup}
  *  vanished after the SVG looped even though the cursor kept moving. */
 function buildPulseFragment(c: ResolvedClick, idx: number, uid: string, kf: string[], totalDurationMs: number): string {
   const totalSec = totalDurationMs / 1000;
-  const durMs = c.style.pulseDurationMs;
+  // A pulse the loop's end leaves no room for is played in the time that is left.
+  const durMs = Math.min(c.style.pulseDurationMs, totalDurationMs - c.t);
   const r0 = 4;
   const r1 = c.style.pulseRadius;
   const innerR = r1 * 0.55;
-- 
2.43.0


From ae60fd3d20789d346e5da081639e58e2fde06ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:04 +0000
Subject: [PATCH 32/39] fix: tree comparison confuses texts that read like
 structure

---
 src/tree-ops/tree-diff.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tree-ops/tree-diff.ts b/src/tree-ops/tree-diff.ts
index 32329cb..9b45a56 100644
--- a/src/tree-ops/tree-diff.ts
+++ b/src/tree-ops/tree-diff.ts
@@ -194,8 +194,9 @@ function pathKey(path: number[]): string {
  */
 function capturedElementFingerprint(el: CapturedElement): string {
   const childFP = (el.children ?? []).map(capturedElementFingerprint).join("|");
-  const animPart = el.animId != null && el.animId !== "" ? `@${el.animId}` : "";
-  return `${el.tag}${animPart}:${el.text ?? ""}:[${childFP}]`;
+  const animPart = el.animId != null && el.animId !== "" ? `@${JSON.stringify(el.animId)}` : "";
+  // Quoted, so that no text can be mistaken for structure (`a:[]|p:b`).
+  return `${el.tag}${animPart}:${JSON.stringify(el.text ?? "")}:[${childFP}]`;
 }
 
 /**
-- 
2.43.0


From c3ff576f42e2646fd177c830b1046ec01a904c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:04 +0000
Subject: [PATCH 33/39] fix: magic-move carried resized, nested and half-keyed
 elements off their places and dropped fading ones

---
 src/animation/magic-move.ts | 258 +++++++++++++++++++++---------------
 1 file changed, 149 insertions(+), 109 deletions(-)

diff --git a/src/animation/magic-move.ts b/src/animation/magic-move.ts
index b43e12e..9eaf855 100644
--- a/src/animation/magic-move.ts
+++ b/src/animation/magic-move.ts
@@ -26,7 +26,7 @@
  */
 
 import type { CapturedElement } from "../capture/types.js";
-import { diffTrees, entriesOfKind, BBOX_TOLERANCE } from "../tree-ops/tree-diff.js";
+import { diffTrees, BBOX_TOLERANCE } from "../tree-ops/tree-diff.js";
 
 /** One element that slides during the transition. The animator interpolates
  *  `transform: <from> → <to>` over the window. A `translate(dx,dy)` for a pure
@@ -39,7 +39,8 @@ export interface MagicMoveSlide {
   cls: string;
   /** CSS transform at the window start. */
   from: string;
-  /** CSS transform at the window end (`"none"` for the next-appearance copy). */
+  /** CSS transform at the window end (for the next-appearance copy `"none"`, or
+   *  an identity of the same shape as `from` when the element is resized). */
   to: string;
 }
 
@@ -54,42 +55,62 @@ export interface MagicMove {
   fadeOut: string[];
 }
 
+interface Rect { x: number; y: number; width: number; height: number }
+
 function asRoots(t: CapturedElement | CapturedElement[]): CapturedElement[] {
   return Array.isArray(t) ? t : [t];
 }
 
-/** Resolve a tree path (`[rootIdx, childIdx, …]`, per `diffTrees`) to its element. */
-function elementAtPath(roots: CapturedElement[], path: number[]): CapturedElement | null {
-  let el: CapturedElement | undefined = roots[path[0]];
-  for (let i = 1; i < path.length && el != null; i++) el = el.children?.[path[i]];
-  return el ?? null;
+/** Axis-aligned affine map: `x → sx·x + tx`, `y → sy·y + ty`. */
+interface RectMap { sx: number; sy: number; tx: number; ty: number }
+
+const IDENTITY: RectMap = { sx: 1, sy: 1, tx: 0, ty: 0 };
+
+/**
+ * The map that takes `from`'s rect onto `to`'s. A pure move (size unchanged) is a
+ * translation; a zero `from` dimension can't be scaled, so it also falls back to
+ * translate-only.
+ */
+function rectMap(from: Rect, to: Rect): RectMap {
+  const sizeChanged = Math.abs(to.width - from.width) > BBOX_TOLERANCE || Math.abs(to.height - from.height) > BBOX_TOLERANCE;
+  if (!sizeChanged || from.width <= 0 || from.height <= 0) return { sx: 1, sy: 1, tx: to.x - from.x, ty: to.y - from.y };
+  const sx = to.width / from.width;
+  const sy = to.height / from.height;
+  return { sx, sy, tx: to.x - sx * from.x, ty: to.y - sy * from.y };
+}
+
+function applyMap(m: RectMap, q: Rect): Rect {
+  return { x: m.sx * q.x + m.tx, y: m.sy * q.y + m.ty, width: m.sx * q.width, height: m.sy * q.height };
+}
+
+/** `outer⁻¹ ∘ inner`: what an element inside something mapped by `outer` needs
+ *  of its own to be mapped by `inner` overall. */
+function relativeMap(outer: RectMap, inner: RectMap): RectMap {
+  const sx = outer.sx === 0 ? 1 : outer.sx;
+  const sy = outer.sy === 0 ? 1 : outer.sy;
+  return { sx: inner.sx / sx, sy: inner.sy / sy, tx: (inner.tx - outer.tx) / sx, ty: (inner.ty - outer.ty) / sy };
 }
 
 /**
- * CSS `transform` that maps an element rendered at its NEXT rect back onto its
- * PREV rect — the window-start state the animator interpolates away to `none`.
- * The element's painted geometry sits at next-space coordinates, so the affine
- * is `translate(prevOrigin) · scale(prevSize/nextSize) · translate(-nextOrigin)`
- * (prepend-translate to next origin, scale about it, then place at prev origin).
- * Pure moves (size unchanged) collapse to a single `translate(dx, dy)` for
- * smaller, more legible output; a zero next-dimension can't be scaled, so it
- * also falls back to translate-only.
+ * The two CSS `transform`s between `m` and rest for an element painted at `at`.
+ * A pure move collapses to a single `translate(dx, dy)` against `none`. With a
+ * size change `m` is written `translate(target) · scale · translate(-origin)`,
+ * anchored at the element's own origin, and the rest state as the SAME list of
+ * functions: against `none` each function would interpolate to its own identity,
+ * which carries the element far off the straight way between the two rects.
  */
-function rectMapTransform(
-  prev: { x: number; y: number; width: number; height: number },
-  next: { x: number; y: number; width: number; height: number },
-): string {
-  const sizeChanged = Math.abs(prev.width - next.width) > BBOX_TOLERANCE || Math.abs(prev.height - next.height) > BBOX_TOLERANCE;
-  if (!sizeChanged || next.width <= 0 || next.height <= 0) {
-    return `translate(${r(prev.x - next.x)}px, ${r(prev.y - next.y)}px)`;
-  }
-  const sx = prev.width / next.width;
-  const sy = prev.height / next.height;
-  return `translate(${r(prev.x)}px, ${r(prev.y)}px) scale(${r5(sx)}, ${r5(sy)}) translate(${r(-next.x)}px, ${r(-next.y)}px)`;
+function mapTransforms(m: RectMap, at: Rect): { mapped: string; rest: string } {
+  if (Math.abs(m.sx - 1) < 1e-9 && Math.abs(m.sy - 1) < 1e-9) return { mapped: `translate(${r(m.tx)}px, ${r(m.ty)}px)`, rest: "none" };
+  const target = applyMap(m, at);
+  const back = `translate(${r(-at.x)}px, ${r(-at.y)}px)`;
+  return {
+    mapped: `translate(${r(target.x)}px, ${r(target.y)}px) scale(${r5(m.sx)}, ${r5(m.sy)}) ${back}`,
+    rest: `translate(${r(at.x)}px, ${r(at.y)}px) scale(1, 1) ${back}`,
+  };
 }
 
 /** Round to 2dp (px positions) / 5dp (scale factors), trimming trailing zeros. */
-function r(n: number): number { return Number(n.toFixed(2)); }
+function r(n: number): number { return Number(n.toFixed(2)) + 0; }
 function r5(n: number): number { return Number(n.toFixed(5)); }
 
 /** True iff `a` is a strict prefix of `b` (i.e. `a` is an ancestor path of `b`). */
@@ -99,8 +120,9 @@ function isAncestorPath(a: number[], b: number[]): boolean {
   return true;
 }
 
-/** A matched element that animates between frames. */
-interface Mover {
+/** An element present in both frames. */
+interface Pair {
+  prevPath: number[];
   nextPath: number[];
   prev: CapturedElement;
   next: CapturedElement;
@@ -146,10 +168,7 @@ function appearanceChanged(prev: CapturedElement, next: CapturedElement): boolea
 }
 
 /** True iff the two rects differ in origin or size beyond the diff tolerance. */
-function rectChanged(
-  p: { x: number; y: number; width: number; height: number },
-  q: { x: number; y: number; width: number; height: number },
-): boolean {
+function rectChanged(p: Rect, q: Rect): boolean {
   return Math.abs(q.x - p.x) > BBOX_TOLERANCE || Math.abs(q.y - p.y) > BBOX_TOLERANCE
     || Math.abs(q.width - p.width) > BBOX_TOLERANCE || Math.abs(q.height - p.height) > BBOX_TOLERANCE;
 }
@@ -193,48 +212,38 @@ export function buildMagicMove(
   // split them into add + remove, which would cross-fade instead of slide).
   const prevKeyed = collectKeyed(prevRoots);
   const nextKeyed = collectKeyed(nextRoots);
-  const keyedMovers: Mover[] = [];
+  const keyed: Pair[] = [];
   const keyedNextPaths = new Set<string>();
   const keyedPrevPaths = new Set<string>();
   for (const [key, nx] of nextKeyed) {
     const pv = prevKeyed.get(key);
     if (pv == null) continue; // key only in next → genuinely added; leave to heuristic
-    keyedMovers.push({ nextPath: nx.path, prev: pv.el, next: nx.el });
+    keyed.push({ prevPath: pv.path, nextPath: nx.path, prev: pv.el, next: nx.el });
     keyedNextPaths.add(nx.path.join(","));
     keyedPrevPaths.add(pv.path.join(","));
   }
 
-  // Heuristic movers: any element matched by diffTrees (static / translated /
-  // modified all carry prev + next) whose rect changed in ORIGIN or SIZE —
-  // re-derived from the rects since diffTrees keys its kind on origin only and
-  // size isn't in its fingerprint (a grow-in-place lands as `static`). Skip
-  // elements a key already claimed.
-  const heuristicMovers: Mover[] = entriesOfKind(diff, "static", "translated", "modified")
-    .filter((e) => e.nextPath != null && e.prev != null && e.next != null
-      && !keyedNextPaths.has(e.nextPath.join(","))
-      && rectChanged(e.prev, e.next))
-    .map((e) => ({ nextPath: e.nextPath!, prev: e.prev!, next: e.next! }));
-
-  // Keyed pairs animate only when their rect actually changed (a keyed but
-  // unmoved element is just static — the key still guaranteed the pairing).
-  const allMovers = [...keyedMovers.filter((m) => rectChanged(m.prev, m.next)), ...heuristicMovers];
-
-  // Only animate the HIGHEST moved ancestor of each changed subtree: when a
-  // card moves/grows the diff reports every descendant as changed too, but the
-  // ancestor's transform already carries them — animating each would
-  // double-apply. Keep a mover only when no other mover is its ancestor.
-  const allMoverPaths = allMovers.map((m) => m.nextPath);
-  const rootMovers = allMovers.filter(
-    (m) => !allMoverPaths.some((p) => isAncestorPath(p, m.nextPath)),
-  );
-
-  // Added / removed, minus anything a key force-paired (those slide, not fade).
-  const added = entriesOfKind(diff, "added")
-    .filter((e) => e.nextPath == null || !keyedNextPaths.has(e.nextPath.join(",")));
-  const removed = entriesOfKind(diff, "removed")
-    .filter((e) => e.prevPath == null || !keyedPrevPaths.has(e.prevPath.join(",")));
+  // Everything diffTrees matched (static / translated / modified all carry prev +
+  // next), minus what a key claimed. An entry with only ONE side claimed leaves
+  // the other side without a counterpart, so that side is added / removed.
+  const pairs: Pair[] = [...keyed];
+  const added: { path: number[] }[] = [];
+  const removed: { path: number[]; el: CapturedElement }[] = [];
+  for (const e of diff.entries) {
+    const nextFree = e.nextPath != null && !keyedNextPaths.has(e.nextPath.join(","));
+    const prevFree = e.prevPath != null && !keyedPrevPaths.has(e.prevPath.join(","));
+    if (nextFree && prevFree) pairs.push({ prevPath: e.prevPath!, nextPath: e.nextPath!, prev: e.prev!, next: e.next! });
+    else if (nextFree) added.push({ path: e.nextPath! });
+    else if (prevFree) removed.push({ path: e.prevPath!, el: e.prev! });
+  }
+  const pairByNext = new Map(pairs.map((p) => [p.nextPath.join(","), p]));
 
-  if (rootMovers.length === 0 && added.length === 0 && removed.length === 0) {
+  // A mover is a matched element whose rect changed in ORIGIN or SIZE —
+  // re-derived from the rects since diffTrees keys its kind on origin only and
+  // size isn't in its fingerprint (a grow-in-place lands as `static`). Keyed
+  // pairs count only when their rect changed, too (a keyed but unmoved element
+  // is just static — the key still guaranteed the pairing).
+  if (added.length === 0 && removed.length === 0 && !pairs.some((p) => rectChanged(p.prev, p.next))) {
     return null; // nothing to magic-move → caller uses crossfade
   }
 
@@ -250,60 +259,91 @@ export function buildMagicMove(
   // they render at their prev coordinates.
   const extraRoots: CapturedElement[] = [];
 
+  // Prev subtrees already copied: whatever lies inside one is shown by it.
+  const copiedPaths: number[][] = [];
+  const isCopied = (path: number[]): boolean => copiedPaths.some((p) => isAncestorPath(p, path) || p.join(",") === path.join(","));
+  const copyPrev = (path: number[], el: CapturedElement, id: string): void => {
+    const clone = structuredClone(el);
+    assignBridgeAnimId(clone, id);
+    extraRoots.push(clone);
+    copiedPaths.push(path);
+    fadeOut.push(`anim-${id}`);
+  };
+  // A prev copy renders at its prev rect; map it FORWARD onto the next rect so it
+  // traces the same path as the next copy while fading out.
+  const slidePrevCopy = (p: Pair, id: string): void => {
+    const { mapped, rest } = mapTransforms(rectMap(p.prev, p.next), p.prev);
+    slides.push({ cls: `anim-${id}`, from: rest, to: mapped });
+  };
+
+  // Matched elements whose next copy sits inside something that fades in.
+  const veiled: Pair[] = [];
   let n = 0;
-  for (const m of rootMovers) {
-    const el = elementAtPath(compositeNext, m.nextPath);
-    if (el == null) continue;
-    const nextId = `${idPrefix}mv${n++}`;
-    assignBridgeAnimId(el, nextId);
-    // Next-appearance copy: slide from the prev rect to its final next rect.
-    slides.push({ cls: `anim-${nextId}`, from: rectMapTransform(m.prev, m.next), to: "none" });
+  let a = 0;
+  const addedPaths = new Set(added.map((e) => e.path.join(",")));
+  // `carried` is how the enclosing slides map this element's next-space geometry
+  // at the window start. An element that rides along (its prev rect is where its
+  // moved ancestor takes it) needs nothing; one with a motion of its own gets the
+  // difference as a nested slide, so nothing is applied twice and an element that
+  // stays put inside a moving container stays put.
+  const visit = (el: CapturedElement, path: number[], carried: RectMap, fading: boolean): void => {
+    const key = path.join(",");
+    const pair = pairByNext.get(key);
+    let map = carried;
+    if (pair != null) {
+      if (fading) veiled.push(pair);
+      if (rectChanged(pair.prev, applyMap(carried, pair.next))) {
+        map = rectChanged(pair.prev, pair.next) ? rectMap(pair.next, pair.prev) : IDENTITY;
+        const nextId = `${idPrefix}mv${n++}`;
+        assignBridgeAnimId(el, nextId);
+        // Next-appearance copy: slide from the prev rect to its final next rect.
+        const { mapped, rest } = mapTransforms(relativeMap(carried, map), pair.next);
+        slides.push({ cls: `anim-${nextId}`, from: mapped, to: rest });
 
-    // DM-903: when the element's PAINT also changed (text / color / background
-    // / border / opacity), a single next-appearance copy would snap the new
-    // look on at the window start. Render a SECOND copy at the PREV appearance,
-    // co-moving along the same prev→next path, and cross-fade — prev fades out,
-    // next fades in. Geometry-only movers keep the cheaper single copy (nothing
-    // to cross-fade). The SVG children carry baked-in fills a wrapper can't
-    // restyle, so dual-render + cross-fade is how the paint morph is expressed.
-    if (appearanceChanged(m.prev, m.next)) {
-      fadeIn.push(`anim-${nextId}`);
-      const prevClone = structuredClone(m.prev);
-      const prevId = `${nextId}p`;
-      assignBridgeAnimId(prevClone, prevId);
-      extraRoots.push(prevClone);
-      // Prev copy renders at its prev rect; map it FORWARD onto the next rect
-      // (rectMapTransform with args swapped) so it traces the same path as the
-      // next copy while fading out.
-      slides.push({ cls: `anim-${prevId}`, from: "none", to: rectMapTransform(m.next, m.prev) });
-      fadeOut.push(`anim-${prevId}`);
+        // DM-903: when the element's PAINT also changed (text / color / background
+        // / border / opacity), a single next-appearance copy would snap the new
+        // look on at the window start. Render a SECOND copy at the PREV appearance,
+        // co-moving along the same prev→next path, and cross-fade — prev fades out,
+        // next fades in. Geometry-only movers keep the cheaper single copy (nothing
+        // to cross-fade). The SVG children carry baked-in fills a wrapper can't
+        // restyle, so dual-render + cross-fade is how the paint morph is expressed.
+        if (!fading && appearanceChanged(pair.prev, pair.next)) {
+          fadeIn.push(`anim-${nextId}`);
+          if (!isCopied(pair.prevPath)) {
+            copyPrev(pair.prevPath, pair.prev, `${nextId}p`);
+            slidePrevCopy(pair, `${nextId}p`);
+          }
+          fading = true;
+        }
+      }
+    } else if (addedPaths.has(key)) {
+      const id = `${idPrefix}in${a++}`;
+      assignBridgeAnimId(el, id);
+      fadeIn.push(`anim-${id}`);
+      fading = true;
     }
-  }
-
-  let a = 0;
-  for (const e of added) {
-    if (e.nextPath == null) continue;
-    const el = elementAtPath(compositeNext, e.nextPath);
-    if (el == null) continue;
-    const id = `${idPrefix}in${a++}`;
-    assignBridgeAnimId(el, id);
-    fadeIn.push(`anim-${id}`);
-  }
+    (el.children ?? []).forEach((c, i) => visit(c, [...path, i], map, fading));
+  };
+  compositeNext.forEach((el, i) => visit(el, [i], IDENTITY, false));
 
   // Removed elements aren't in the next tree — append their prev subtrees (at
   // their prev coordinates) so they render where the prev frame had them, and
-  // fade them out. Skip a removed entry nested inside another removed subtree
+  // fade them out. Skip a removed entry nested inside another copied subtree
   // (its ancestor already carries it).
-  const removedPaths = removed.map((e) => e.prevPath).filter((p): p is number[] => p != null);
   let o = 0;
   for (const e of removed) {
-    if (e.prevPath == null || e.prev == null) continue;
-    if (removedPaths.some((p) => isAncestorPath(p, e.prevPath!))) continue;
-    const clone = structuredClone(e.prev);
+    if (!isCopied(e.path)) copyPrev(e.path, e.el, `${idPrefix}out${o++}`);
+  }
+
+  // A matched element inside something that fades in would be missing at the
+  // window start: unless a copied subtree already shows its prev appearance,
+  // copy that too and let the two cross-fade on their common way.
+  veiled.sort((p, q) => p.prevPath.length - q.prevPath.length);
+  for (const p of veiled) {
+    if (isCopied(p.prevPath)) continue;
     const id = `${idPrefix}out${o++}`;
-    assignBridgeAnimId(clone, id);
-    extraRoots.push(clone);
-    fadeOut.push(`anim-${id}`);
+    copyPrev(p.prevPath, p.prev, id);
+    if (rectChanged(p.prev, p.next)) slidePrevCopy(p, id);
   }
 
   const compositeSvg = render([...compositeNext, ...extraRoots], idPrefix);
-- 
2.43.0


From 0f3eb2872d592157d13ac09639eb1fe8ef1e83aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:25 +0000
Subject: [PATCH 34/39] fix: a sheen parks and travels fully outside its box,
 keeps to its window when repeating, and never starts past it

---
 src/animation/shine.ts | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/animation/shine.ts b/src/animation/shine.ts
index 6a40297..beef6c2 100644
--- a/src/animation/shine.ts
+++ b/src/animation/shine.ts
@@ -62,6 +62,8 @@ export interface ShineSweepOptions {
    * loops for the frame's whole hold. Omit for a one-shot sweep (transitions).
    */
   repeat?: number | "infinite";
+  /** End of the window a `repeat` sweep may run in (it starts at `startPct`). */
+  windowEndPct?: string;
   /** Period of ONE ambient sweep in ms (only with `repeat`). Default 1400. */
   repeatPeriodMs?: number;
 }
@@ -93,12 +95,13 @@ export function buildShineSweep(opts: ShineSweepOptions): ShineSweepResult {
   const gradId = `shine-grad-${id}`;
   const cls = `shine-${id}`;
 
-  // Travel: the band's local x runs from `-band` (fully left of the box) to
-  // `width + band` (fully right of it). Skewing the band would let its top/bottom
+  // Travel: the band's local x runs from fully left of the box to fully right of
+  // it, counting the `lean` by which the skew carries its top / bottom across. Skewing the band would let its top/bottom
   // corners poke outside the sweep, so the band rect is over-tall (from -height to
   // +2·height) and the skew pivots about the box center; the clip trims the rest.
-  const startX = -band;
-  const endX = width + band;
+  const lean = Math.abs(Math.tan((skew * Math.PI) / 180)) * (height / 2);
+  const startX = -(band + lean);
+  const endX = width + band + lean;
   const bandH = height * 3;
 
   // Rounded clip so the glint follows a pill/button's corners rather than
@@ -110,7 +113,12 @@ export function buildShineSweep(opts: ShineSweepOptions): ShineSweepResult {
   // A one-shot sweep parks off the right edge before/after the window (invisible,
   // clipped away) so it rests at identity. An ambient `repeat` sweep instead loops
   // on its own clock across the frame's whole hold.
+  // Its own clock does not stop with the window, so a looping sweep is gated by it.
   let css: string;
+  const gated = opts.repeat != null && opts.windowEndPct != null;
+  const win = gated ? `
+    @keyframes ${cls}-win { 0% { opacity: 0; } ${opts.startPct} { opacity: 1; } ${opts.windowEndPct}, 100% { opacity: 0; } }
+    .${cls}-win { animation: ${cls}-win ${totalSec.toFixed(2)}s step-end infinite; }` : "";
   if (opts.repeat != null) {
     const period = opts.repeatPeriodMs ?? 1400;
     const iterations = opts.repeat === "infinite" ? "infinite" : String(opts.repeat);
@@ -121,7 +129,7 @@ export function buildShineSweep(opts: ShineSweepOptions): ShineSweepResult {
       0% { transform: translateX(${startX}px); }
       100% { transform: translateX(${endX}px); }
     }
-    .${cls} { animation: ${cls} ${period}ms linear ${delayMs.toFixed(0)}ms ${iterations} both; }`;
+    .${cls} { animation: ${cls} ${period}ms linear ${delayMs.toFixed(0)}ms ${iterations} both; }${win}`;
   } else {
     // One-shot: hold parked-left until the window opens, sweep across, park right.
     const beforePct = Math.max(0, startNum - 0.001);
@@ -143,8 +151,8 @@ export function buildShineSweep(opts: ShineSweepOptions): ShineSweepResult {
       <stop offset="1" stop-color="${color}" stop-opacity="0" />
     </linearGradient>
   </defs>
-  <g clip-path="url(#${clipId})">
-    <g class="${cls}"><rect x="0" y="${y - height}" width="${band}" height="${bandH}" fill="url(#${gradId})" transform="translate(${x} 0) skewX(${-skew})" /></g>
+  <g${gated ? ` class="${cls}-win"` : ""} clip-path="url(#${clipId})">
+    <g class="${cls}"><rect x="0" y="${y - height}" width="${band}" height="${bandH}" fill="url(#${gradId})" transform="translate(${x} ${y + height / 2}) skewX(${-skew}) translate(0 ${-(y + height / 2)})" /></g>
   </g>`;
 
   return { markup, css };
-- 
2.43.0


From 010fb7d9aae028aed1535e2ef86e033be9e6d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:25 +0000
Subject: [PATCH 35/39] fix: overlays keep to their windows: nested svg overlay
 animations, window edges that survive rounding, squeezed typing, zero blink
 periods

---
 src/animation/animator.ts | 66 ++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index e565e72..36b145a 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -2033,7 +2033,7 @@ function buildTypingPlan(
       const wrong = mistakes.get(gi);
       if (wrong != null && !paste) {
         const leftEdge = cum[li][k];
-        const wrongEdge = leftEdge + advOf(wrong);
+        const wrongEdge = [...wrong].reduce((edge, ch) => edge + advOf(ch), leftEdge);
         const mis: MistakeGlyph = { li, leftEdge, ch: wrong, showMs: 0, hideMs: 0 };
         mistakeGlyphs.push(mis);
         // Type the wrong glyph — caret jumps past it.
@@ -2062,14 +2062,15 @@ function buildTypingPlan(
 }
 
 /** Monotone keyframe-stop builder: nudges each stop past the previous so equal
- *  rounded percents don't collapse (later CSS declaration would win). */
-function monotoneStops(): { push: (pn: number, decl: string) => void; stops: string[] } {
+ *  rounded percents don't collapse (later CSS declaration would win), though
+ *  never past `lastPn`: a keystroke must not land after the hold it leads up to. */
+function monotoneStops(lastPn = 100): { push: (pn: number, decl: string) => void; stops: string[] } {
   const stops: string[] = [];
   let last = -Infinity;
   return {
     stops,
     push(pn: number, decl: string): void {
-      const p = Math.max(pn, last + 0.01);
+      const p = Math.max(last, Math.min(Math.max(pn, last + 0.01), lastPn));
       stops.push(`${p.toFixed(2)}% { ${decl} }`);
       last = p;
     },
@@ -2145,7 +2146,7 @@ function buildTypingLines(
 
     const startPn = pctNum(lineGlyphs[0].appearMs, totalDuration);
     if (discrete) {
-      const b = monotoneStops();
+      const b = monotoneStops(parseFloat(holdEndPct));
       // Hold hidden until this line's first glyph, then step the clip to each
       // glyph's measured edge as it is typed.
       b.push(0, `width: ${hiddenW};`);
@@ -2163,7 +2164,7 @@ function buildTypingLines(
       const startPct = `${Math.max(0, startPn).toFixed(2)}%`;
       const endPct = `${Math.max(startPn + 0.01, endPn).toFixed(2)}%`;
       cssRules.push(`
-    @keyframes ${id}-rev${li} { 0%, ${startPct} { width: ${hiddenW}; } ${endPct} { width: ${fullWidth}px; } ${holdEndPct} { width: ${fullWidth}px; } ${disappearPct}, 100% { width: ${hiddenW}; } }
+    @keyframes ${id}-rev${li} { 0%, ${startPct} { width: ${hiddenW}; } ${endPct} { width: ${fullWidth}px; } ${holdEndPct} { width: ${fullWidth}px; animation-timing-function: step-end; } ${disappearPct}, 100% { width: ${hiddenW}; } }
     .${id}-rev${li} { animation: ${id}-rev${li} ${totalSec.toFixed(2)}s linear infinite; }`);
     }
   });
@@ -2202,7 +2203,7 @@ function buildTypingCaret(
     // Position track: hold at the first line's left margin until typing begins,
     // then jump to each waypoint's measured edge as it is reached (step-end),
     // then park at the text end through the blink + disappear.
-    const b = monotoneStops();
+    const b = monotoneStops(parseFloat(holdEndPct));
     b.push(0, `transform: translate(0px, 0px);`);
     b.push(Math.max(0.01, pctNum(typeStartMs, totalDuration)), `transform: translate(0px, 0px);`);
     for (const g of caretSteps) b.push(pctNum(g.appearMs, totalDuration), `transform: translate(${g.edge.toFixed(2)}px, ${(g.li * lineHeight).toFixed(2)}px);`);
@@ -2215,10 +2216,10 @@ function buildTypingCaret(
     // on/off every half-period until the overlay disappears.
     const blinkStops: string[] = [
       `0%, ${typeStartPct} { opacity: 0; }`,
-      `${pct(typeStartMs + 30, totalDuration)} { opacity: 1; }`,
+      `${pct(Math.min(typeStartMs + 30, holdEndMs), totalDuration)} { opacity: 1; }`,
       `${pct(textEndMs, totalDuration)} { opacity: 1; }`,
     ];
-    let t = textEndMs + blinkMs / 2;
+    let t = blinkMs > 0 ? textEndMs + blinkMs / 2 : holdEndMs; // no period: steady
     let on = false;
     while (t < holdEndMs) {
       blinkStops.push(`${pct(t, totalDuration)} { opacity: ${on ? 1 : 0}; }`);
@@ -2325,6 +2326,8 @@ function renderTypingOverlay(
   const lineHeight = Math.round(fontSize * 1.35);
   const color = overlay.color ?? "#e6edf3";
   const typeStartMs = frameStart + delay;
+  // Typing that would start at or after its window's end never starts.
+  if (typeStartMs >= frameEnd) return { svgMarkup: "", css: "" };
   const id = `t${idBase}`;
 
   // DM-840 / DM-1134: wrap to `wrapWidth` so typed text behaves like a browser
@@ -2395,7 +2398,10 @@ function renderTypingOverlay(
     ? Math.min(frameEnd, holdEndMs + 100)
     : exit.kind === "dissolve" ? Math.min(totalDuration, holdEndMs + exit.ms) : holdEndMs;
   const textHeight = fontSize + 4;
-  const holdEndPct = pct(holdEndMs, totalDuration);
+  // At the very end of the loop there is no room for a stop past the hold: the
+  // hold's own stop (which lasts, step-end) moves an epsilon in.
+  const endOfLoop = hardCut && pctNum(holdEndMs, totalDuration) > 100 - KEYFRAME_EPSILON.display;
+  const holdEndPct = endOfLoop ? `${padBefore(100, KEYFRAME_EPSILON.display, 2)}%` : pct(holdEndMs, totalDuration);
   // DM-1749: with the hard cut, the full-opacity stop sits AT the window
   // boundary and the disappear stop an epsilon past it (so the boundary tick
   // belongs to the visible state); the segment between them gets a step-end
@@ -2404,7 +2410,7 @@ function renderTypingOverlay(
   // clips and caret already animate step-end, so the epsilon stop alone makes
   // their drop a hard cut too.
   const disappearPct = hardCut
-    ? `${padAfter(pctNum(disappearMs, totalDuration), KEYFRAME_EPSILON.display, 2)}%`
+    ? `${padAfter(parseFloat(holdEndPct), KEYFRAME_EPSILON.display, 2)}%` // past the ROUNDED hold stop, so the two stay apart
     : pct(disappearMs, totalDuration);
   const holdAtf = hardCut ? " animation-timing-function: step-end;" : "";
 
@@ -2423,7 +2429,7 @@ function renderTypingOverlay(
       `  <rect class="${id}-bg" x="${overlay.x - 2}" y="${overlay.y - fontSize + 2}" width="${bgW}" height="${bgH}" fill="${maskColor}" rx="2" />`,
     );
     cssRules.push(`
-    @keyframes ${id}-bg { 0%, ${bgStartPct} { opacity: 0; } ${pct(typeStartMs + 50, totalDuration)} { opacity: 1; } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
+    @keyframes ${id}-bg { 0%, ${bgStartPct} { opacity: 0; } ${pct(Math.min(typeStartMs + 50, holdEndMs), totalDuration)} { opacity: 1; } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
     .${id}-bg { animation: ${id}-bg ${totalSec.toFixed(2)}s infinite; }`);
   }
 
@@ -2449,7 +2455,7 @@ function renderTypingOverlay(
   // Whole-overlay visibility — shared by every line's glyph group.
   const typeStartPct = pct(typeStartMs, totalDuration);
   cssRules.push(`
-    @keyframes ${id}-vis { 0%, ${typeStartPct} { opacity: 0; } ${pct(typeStartMs + 30, totalDuration)} { opacity: 1; } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
+    @keyframes ${id}-vis { 0%, ${typeStartPct} { opacity: 0; } ${pct(Math.min(typeStartMs + 30, holdEndMs), totalDuration)} { opacity: 1; } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
     .${id}-text { animation: ${id}-vis ${totalSec.toFixed(2)}s infinite; }`);
 
   // Optional blinking insertion caret glued to the growing text edge. In paste
@@ -2489,10 +2495,10 @@ function renderTapOverlay(
   // A window that closes before the ripple even starts means the tap belongs to
   // a moment that is no longer on screen — emit nothing rather than a ripple
   // squeezed into zero time.
-  if (windowEnd != null && windowEnd <= tapMs) return { svgMarkup: "", css: "" };
+  if (Math.min(windowEnd ?? Infinity, totalDuration) <= tapMs) return { svgMarkup: "", css: "" };
   // Cut the ripple short at the window edge (never stretch it): each stop is
   // clamped, then nudged so the three keyframe stops stay strictly increasing.
-  const cut = windowEnd ?? Infinity;
+  const cut = Math.min(windowEnd ?? Infinity, totalDuration);
   const peakMs = Math.max(tapMs + 1, Math.min(tapMs + rippleDur * 0.3, cut));
   const endMs = Math.max(peakMs + 1, Math.min(tapMs + rippleDur, cut));
 
@@ -2531,11 +2537,14 @@ function renderShineOverlay(
   const delay = overlay.delay ?? DEFAULT_EFFECT_DELAY_MS;
   const duration = overlay.duration ?? 900;
   const sweepStartMs = frameStart + delay;
+  const windowEndMs = frameStart + frameHoldMs;
+  if (sweepStartMs >= windowEndMs) return { svgMarkup: "", css: "" }; // never starts within its window
   const sweep = buildShineSweep({
     id: `sh${idBase}`,
     x: overlay.x, y: overlay.y, width: overlay.width, height: overlay.height,
     startPct: pct(sweepStartMs, totalDuration),
-    endPct: pct(Math.min(frameStart + frameHoldMs, sweepStartMs + duration), totalDuration),
+    endPct: pct(Math.min(windowEndMs, sweepStartMs + duration), totalDuration),
+    windowEndPct: pct(windowEndMs, totalDuration),
     totalSec,
     color: overlay.color,
     opacity: overlay.opacity,
@@ -2571,7 +2580,7 @@ function renderBlinkOverlay(
   let on = true;
   while (t < frameEnd) {
     stops.push(`${pct(t, totalDuration)} { opacity: ${on ? 1 : 0}; }`);
-    t += period / 2;
+    t = period > 0 ? t + period / 2 : frameEnd; // no period: steady
     on = !on;
   }
   stops.push(`${pct(frameEnd, totalDuration)}, 100% { opacity: 0; }`);
@@ -2674,8 +2683,11 @@ function renderInteractOverlay(
       ${p(releaseEnd)} { opacity: 0; transform: scale(1); }
       100% { opacity: 0; transform: scale(1); }
     }
-    .${id} { animation: ${id} ${period}ms linear ${appearMs.toFixed(0)}ms ${iterations} both; transform-origin: ${cx}px ${cy}px; }`;
-    return { svgMarkup, css };
+    .${id} { animation: ${id} ${period}ms linear ${appearMs.toFixed(0)}ms ${iterations} both; transform-origin: ${cx}px ${cy}px; }
+    @keyframes ${id}-win { 0% { opacity: 0; } ${s(appearMs)} { opacity: 1; } ${s(frameEnd)}, 100% { opacity: 0; } }
+    .${id}-win { animation: ${id}-win ${totalSec.toFixed(2)}s step-end infinite; }`;
+    // The pulses run on their own clock; the window is what bounds them.
+    return { svgMarkup: `  <g class="${id}-win">\n${svgMarkup}\n  </g>`, css };
   }
   css = `
     @keyframes ${id} {
@@ -2870,10 +2882,11 @@ function renderSvgOverlay(
   const cssRules: string[] = [];
   // Visibility timeline: hidden until the appear time, visible during the
   // half-open hold [appear, end). Keeping the end stop hidden avoids a one-tick
-  // overlap with the next frame/overlay at an exact shared boundary.
+  // overlap with the next frame/overlay at an exact shared boundary. step-end, so
+  // no pair of stops has to stay apart after rounding (they ramped in long scenes).
   cssRules.push(`
-    @keyframes ${visibilityId} { 0%, ${pct(Math.max(0, appearMs - 1), totalDuration)} { opacity: 0; } ${visStart} { opacity: 1; } ${pct(Math.max(appearMs, overlayEnd - 1), totalDuration)} { opacity: 1; } ${visEnd}, 100% { opacity: 0; } }
-    .${id} { animation: ${visibilityId} ${totalSec.toFixed(2)}s infinite; }`);
+    @keyframes ${visibilityId} { 0% { opacity: 0; } ${visStart} { opacity: 1; } ${visEnd}, 100% { opacity: 0; } }
+    .${id} { animation: ${visibilityId} ${totalSec.toFixed(2)}s step-end infinite; }`);
 
   // Slide-in entrance (DM-211): translate from off-screen to (0, 0) over
   // duration ms, starting at frame start + delay.
@@ -2908,11 +2921,14 @@ function renderSvgOverlay(
   // Markup: outer wrapper translates to (x, y) and clips, inner wrapper
   // carries the visibility class, then the enter/exit transform wrapper, then
   // the inlined SVG content.
-  const enterClass = overlay.enter != null ? ` ${id}-enter` : "";
-  const exitClass = overlay.exit != null ? ` ${id}-exit` : "";
+  // Each animation gets a group of its own: on one element the last `animation`
+  // rule would replace the others (and the visibility window with them).
+  let content = overlay.innerSvg;
+  if (overlay.exit != null) content = `<g class="${id}-exit">${content}</g>`;
+  if (overlay.enter != null) content = `<g class="${id}-enter">${content}</g>`;
   const svgMarkup = `  <g transform="translate(${overlay.x} ${overlay.y})" clip-path="url(#${clipId})">
     <defs><clipPath id="${clipId}"><rect width="${overlay.width}" height="${overlay.height}"/></clipPath></defs>
-    <g class="${id}${enterClass}${exitClass}">${overlay.innerSvg}</g>
+    <g class="${id}">${content}</g>
   </g>`;
 
   return { svgMarkup, css: cssRules.join("") };
-- 
2.43.0


From e5b5084db66bd5b305d8a0c1ac4014f6d57db5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:59 +0000
Subject: [PATCH 36/39] fix: the native helper's stray, late, cut and empty
 replies are kept apart from the answer asked for, and its failures never
 reach the renderer

---
 src/render/glyph-helper.ts | 84 +++++++++++++++++++++++++++++---------
 1 file changed, 64 insertions(+), 20 deletions(-)

diff --git a/src/render/glyph-helper.ts b/src/render/glyph-helper.ts
index 8749422..ad635f3 100644
--- a/src/render/glyph-helper.ts
+++ b/src/render/glyph-helper.ts
@@ -28,6 +28,7 @@ import { spawn, spawnSync, type ChildProcess } from "node:child_process";
 import { hostPlatform } from "./host-platform.js";
 import { existsSync, openSync, readSync, writeSync } from "node:fs";
 import path from "node:path";
+import { StringDecoder } from "node:string_decoder";
 import { fileURLToPath } from "node:url";
 import { acquireGlyphHelperSync } from "./helper-acquire.js";
 import { profAccum, profNow, renderProfileEnabled } from "./render-profile.js";
@@ -404,6 +405,7 @@ let serverProc: ChildProcess | null = null;
 let serverInFd: number | undefined;
 let serverOutFd: number | undefined;
 let serverLeftover = "";          // bytes read past one response (normally "")
+let serverDrainable = false;      // the reply fd is non-blocking (a spawned stdio pipe)
 let persistentDisabled = false;   // set once we know the binary can't serve
 let persistentEverWorked = false; // distinguishes "broken binary" from a transient crash
 
@@ -501,8 +503,10 @@ function startPersistentViaPipe(bin: string): boolean {
   serverInFd = fd;
   serverOutFd = fd;
   serverLeftover = "";
-  proc.on("error", () => { serverProc = null; });
-  proc.on("exit", () => { serverProc = null; });
+  serverDrainable = false;
+  // Only while it is still the current one: the event of a replaced child arrives late.
+  proc.on("error", () => { if (serverProc === proc) serverProc = null; });
+  proc.on("exit", () => { if (serverProc === proc) serverProc = null; });
   if (!_persistentExitHookInstalled) {
     _persistentExitHookInstalled = true;
     process.once("exit", () => { try { serverProc?.kill(); } catch { /* ignore */ } });
@@ -575,8 +579,10 @@ function startPersistent(bin: string): boolean {
     serverInFd = inFd;
     serverOutFd = outFd;
     serverLeftover = "";
-    proc.on("error", () => { serverProc = null; });
-    proc.on("exit", () => { serverProc = null; });
+    serverDrainable = true;
+    // Only while it is still the current one: the event of a replaced child arrives late.
+    proc.on("error", () => { if (serverProc === proc) serverProc = null; });
+    proc.on("exit", () => { if (serverProc === proc) serverProc = null; });
     if (!_persistentExitHookInstalled) {
       _persistentExitHookInstalled = true;
       process.once("exit", () => { try { serverProc?.kill(); } catch { /* ignore */ } });
@@ -588,6 +594,27 @@ function startPersistent(bin: string): boolean {
 }
 let _persistentExitHookInstalled = false;
 
+/** Throw away what the helper said without being asked: replies carry no id, so
+ *  a stray one would be taken for the answer to the next request. */
+function discardUnasked(): void {
+  serverLeftover = "";
+  if (!serverDrainable) return;
+  const tmp = Buffer.allocUnsafe(1 << 16);
+  try {
+    while (readSync(serverOutFd!, tmp, 0, tmp.length, null) > 0) { /* discard */ }
+  } catch (e) {
+    if ((e as NodeJS.ErrnoException).code !== "EAGAIN") throw e;
+    return; // nothing there
+  }
+  throw new Error("helper closed stdout");
+}
+
+/** Whether a parsed reply can be read as one: a list of result objects. */
+function isHelperResponse(value: unknown): value is HelperResponse {
+  const results = (value as { results?: unknown } | null)?.results;
+  return Array.isArray(results) && results.length > 0 && results.every((r) => typeof r === "object" && r !== null);
+}
+
 /** Synchronous request → response over the persistent `--serve` child. Returns
  *  null (and disables the channel as appropriate) if it can't complete, so the
  *  caller falls back to one-shot spawnSync. */
@@ -606,6 +633,7 @@ function callHelperPersistent(request: HelperRequest, bin: string): HelperRespon
       profAccum("helperenv:bytes-out", line.length);
     }
     const _w0 = profNow();
+    discardUnasked();
     let off = 0;
     const wDeadline = Date.now() + 30_000;
     while (off < line.length) {
@@ -625,6 +653,7 @@ function callHelperPersistent(request: HelperRequest, bin: string): HelperRespon
     const _r0 = profNow();
     let bytesIn = 0;
     const tmp = Buffer.allocUnsafe(1 << 20);
+    const utf8 = new StringDecoder("utf8"); // a character may be split across reads
     const rDeadline = Date.now() + 30_000;
     while (!serverLeftover.includes("\n")) {
       let n: number;
@@ -637,7 +666,7 @@ function callHelperPersistent(request: HelperRequest, bin: string): HelperRespon
         }
         throw e;
       }
-      if (n > 0) { serverLeftover += tmp.toString("utf-8", 0, n); bytesIn += n; }
+      if (n > 0) { serverLeftover += utf8.write(tmp.subarray(0, n)); bytesIn += n; }
       else if (n === 0) throw new Error("helper closed stdout"); // EOF
     }
     if (renderProfileEnabled) {
@@ -648,7 +677,8 @@ function callHelperPersistent(request: HelperRequest, bin: string): HelperRespon
     const nl = serverLeftover.indexOf("\n");
     const respLine = serverLeftover.slice(0, nl);
     serverLeftover = serverLeftover.slice(nl + 1);
-    const resp = JSON.parse(respLine) as HelperResponse;
+    const resp: unknown = JSON.parse(respLine);
+    if (!isHelperResponse(resp)) throw new Error("helper reply without results");
     if (renderProfileEnabled) profAccum("helperenv:parse", profNow() - _p0);
     persistentEverWorked = true;
     return resp;
@@ -702,13 +732,17 @@ function callHelper(request: HelperRequest): HelperResponse {
   const proc = spawnSync(bin, [], {
     input: JSON.stringify(request),
     encoding: "utf-8",
-    maxBuffer: 64 * 1024 * 1024
+    maxBuffer: 64 * 1024 * 1024,
+    timeout: 30_000,
+    killSignal: "SIGKILL",
   });
   profAccum("helper-spawnSync", profNow() - _t0);
   if (proc.status !== 0) {
     throw new Error(`glyph helper failed (exit ${proc.status}): ${proc.stderr}`);
   }
-  return JSON.parse(proc.stdout);
+  const resp: unknown = JSON.parse(proc.stdout);
+  if (!isHelperResponse(resp)) throw new Error("glyph helper reply without results");
+  return resp;
 }
 
 export interface GlyphHelperFontInstance {
@@ -880,7 +914,7 @@ export function createGlyphHelperFont(spec: {
     const byNameIsRequestedFace = nMeta != null && nMeta.type === "meta"
       && nMeta.nameMatched !== false
       && (nMeta.postscriptName == null || nMeta.postscriptName === spec.postscriptName);
-    if (byNameIsRequestedFace && r1 != null && r1.type === "glyphs") offsetProbe = r1.glyphs;
+    if (byNameIsRequestedFace && r1 != null && r1.type === "glyphs" && Array.isArray(r1.glyphs)) offsetProbe = r1.glyphs;
   } catch {
     return null;
   }
@@ -973,24 +1007,34 @@ export function createGlyphHelperFont(spec: {
   function fetchByCps(cps: number[]): void {
     const need = cps.filter((cp) => !cpToGlyph.has(cp) && !missingCp.has(cp));
     if (need.length === 0) return;
-    const resp = callHelper({
-      fonts: [{ ref: "f", postscriptName: spec.postscriptName, fontPath: spec.fontPath, variations: spec.variations, size: renderSize }],
-      queries: [{ type: "glyphs", fontRef: "f", glyphs: need.map((cp) => ({ cp })) }]
-    });
+    let resp: HelperResponse;
+    try {
+      resp = callHelper({
+        fonts: [{ ref: "f", postscriptName: spec.postscriptName, fontPath: spec.fontPath, variations: spec.variations, size: renderSize }],
+        queries: [{ type: "glyphs", fontRef: "f", glyphs: need.map((cp) => ({ cp })) }]
+      });
+    } catch {
+      return; // helper failure: unresolved this time, asked again the next
+    }
     const r = resp.results[0];
-    if (r.type !== "glyphs") return;
+    if (r.type !== "glyphs" || !Array.isArray(r.glyphs)) return;
     ingestGlyphs(need, r.glyphs);
   }
 
   function fetchById(id: number): GlyphHelperGlyph {
     const cached = idToGlyph.get(id);
     if (cached != null) return cached;
-    const resp = callHelper({
-      fonts: [{ ref: "f", postscriptName: spec.postscriptName, fontPath: spec.fontPath, variations: spec.variations, size: renderSize }],
-      queries: [{ type: "glyphs", fontRef: "f", glyphs: [{ id }] }]
-    });
+    let resp: HelperResponse;
+    try {
+      resp = callHelper({
+        fonts: [{ ref: "f", postscriptName: spec.postscriptName, fontPath: spec.fontPath, variations: spec.variations, size: renderSize }],
+        queries: [{ type: "glyphs", fontRef: "f", glyphs: [{ id }] }]
+      });
+    } catch {
+      return notdef(id); // helper failure: unresolved this time, asked again the next
+    }
     const r = resp.results[0];
-    if (r.type !== "glyphs") {
+    if (r.type !== "glyphs" || r.glyphs?.[0] == null) {
       const empty: GlyphHelperGlyph = { id, advanceWidth: 0, path: { commands: [] } };
       idToGlyph.set(id, empty);
       return empty;
@@ -1660,7 +1704,7 @@ export function resolveSystemFallbackFonts(
     return out;
   }
   const r = resp.results[0];
-  if (r == null || r.type !== "fallback") {
+  if (r == null || r.type !== "fallback" || !Array.isArray(r.fonts)) {
     for (const cp of need) out.set(cp, null);
     return out;
   }
-- 
2.43.0


From 3225bdae39c1bc1c879a44372ea99639f50b5dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:59 +0000
Subject: [PATCH 37/39] fix: video export survives page faults and encoder
 deaths, and keeps even sizes for documents without their own

---
 src/cli/svg-to-video-core.ts | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index df7a864..b2b15bd 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -628,13 +628,15 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
   if (intrinsic) {
     ({ width: outWidth, height: outHeight } = fitContain(intrinsic.w, intrinsic.h, opts.width, opts.height));
   } else if (opts.width != null && opts.height != null) {
-    outWidth = opts.width;
-    outHeight = opts.height;
+    // Same even rounding as the sized path: 4:2:0 encoders reject odd dimensions.
+    outWidth = evenCeil(opts.width);
+    outHeight = evenCeil(opts.height);
   } else {
     throw new Error("SVG has no viewBox/width/height; pass both --width and --height.");
   }
 
   const browser = await opts.launchBrowser();
+  let stopEncoder: (() => Promise<void>) | undefined;
   try {
     // Supersample by rendering the context at deviceScaleFactor = scale, then
     // letting ffmpeg downscale to the target size (crisper edges / text in the
@@ -780,6 +782,16 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
       ff.on("error", reject);
       ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}`))));
     });
+    // ffmpeg may exit before all frames are written: the write below then rejects
+    // (EPIPE) first. Don't let the other two failure signals (the stdin stream's
+    // 'error' event, the still-unawaited `ffDone`) take the process down.
+    ffDone.catch(() => {});
+    ffStdin.on("error", () => {});
+    stopEncoder = async () => {
+      // A failed render must not leave an encoder waiting for frames.
+      if (ff.exitCode == null && ff.signalCode == null) ff.kill("SIGKILL");
+      await ffDone.catch(() => {});
+    };
 
     const writeFrame = (buf: Buffer): Promise<void> =>
       new Promise((resolve, reject) => {
@@ -805,6 +817,7 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
     await ffDone;
     log(`wrote ${opts.output}`);
   } finally {
+    await stopEncoder?.();
     await browser.close();
   }
 }
-- 
2.43.0


From cec3af5e1455e28b71fc2e9c45444c153c08746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:59 +0000
Subject: [PATCH 38/39] fix: a selection cleared while it sweeps stays cleared,
 and long sweeps keep their pace

---
 src/animation/caret-track.ts | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/animation/caret-track.ts b/src/animation/caret-track.ts
index 4da8e03..6bb0da9 100644
--- a/src/animation/caret-track.ts
+++ b/src/animation/caret-track.ts
@@ -538,27 +538,37 @@ function selectionMarkup(sel: ResolvedSelection, si: number, uid: string, kf: st
     const anchor = vertical ? rect.y : (rtl ? rect.x + rect.width : rect.x);
     const sweptTo = (edge: number): number => (rtl && !vertical ? anchor - edge : edge - anchor);
     const stops: string[] = [`0%{${prop}:0.01px}`];
-    if (startMs > 0) stops.push(`${pct(startMs, totalDurationMs)}{${prop}:0.01px}`);
+    // The sweep stops where the selection is cleared (or the loop ends): a later
+    // stop would bring the cleared rect back.
+    const untilMs = sel.clearT ?? Infinity;
+    if (startMs > 0 && startMs < untilMs) stops.push(`${pct(startMs, totalDurationMs)}{${prop}:0.01px}`);
+    const endMs = sel.t + (sweptBefore + rect.edges.length) * perCharMs;
+    // Extent of a linear sweep at `ms`.
+    const linearExtent = (ms: number): number => fullExtent * Math.max(0, Math.min(1, (ms - startMs) / (endMs - startMs)));
     if (sel.sweepMs > 0 && rect.edges.length > 0) {
       if (discrete) {
         for (let k = 0; k < rect.edges.length; k++) {
           const t = sel.t + (sweptBefore + k + 1) * perCharMs;
-          stops.push(`${pct(t, totalDurationMs)}{${prop}:${num(sweptTo(rect.edges[k]))}px}`);
+          if (t < untilMs) stops.push(`${pct(t, totalDurationMs)}{${prop}:${num(sweptTo(rect.edges[k]))}px}`);
         }
-      } else {
-        const endMs = sel.t + (sweptBefore + rect.edges.length) * perCharMs;
+      } else if (endMs < Math.min(untilMs, totalDurationMs)) {
         stops.push(`${pct(endMs, totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
       }
-    } else {
+    } else if (startMs < untilMs) {
       stops.push(`${pct(startMs, totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
     }
     // Discrete sweeps (and instant selections) step per stop; the coarse
     // fallback interpolates linearly between its endpoints. Under `linear`
-    // timing, a clear must still SNAP — so a full-extent hold stop lands just
-    // before the clear time (duplicate adjacent values hold under linear).
+    // timing, a clear must still SNAP — so a hold stop at the extent reached by
+    // then lands just before the clear time.
     const timing = discrete || sel.sweepMs === 0 ? "step-end" : "linear";
-    if (sel.clearT != null) {
-      if (timing === "linear") stops.push(`${pct(Math.max(sel.t, sel.clearT - 1), totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
+    if (timing === "linear") {
+      const cutMs = Math.min(untilMs, totalDurationMs);
+      const holdMs = cutMs === totalDurationMs ? cutMs : Math.max(sel.t, cutMs - 1);
+      if (startMs < cutMs) stops.push(`${pct(holdMs, totalDurationMs)}{${prop}:${num(Math.max(0.01, linearExtent(holdMs)))}px}`);
+      if (cutMs < totalDurationMs) stops.push(`${pct(cutMs, totalDurationMs)}{${prop}:0.01px}`, `100%{${prop}:0.01px}`);
+      else if (startMs >= cutMs) stops.push(`100%{${prop}:0.01px}`);
+    } else if (sel.clearT != null) {
       stops.push(`${pct(sel.clearT, totalDurationMs)}{${prop}:0.01px}`);
       stops.push(`100%{${prop}:0.01px}`);
     } else {
-- 
2.43.0


From 49291450a95f8941a6802ee867abfdc28dd56bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:59 +0000
Subject: [PATCH 39/39] fix: nested stacking contexts, floats and z-index paint
 at the step CSS gives them, and hit-testing agrees

---
 src/render/element-tree-to-svg.ts |  4 +-
 src/render/paint-order.ts         | 91 +++++++++++++++++++------------
 src/render/stacking.ts            | 71 +++++++++++++++++++++---
 3 files changed, 122 insertions(+), 44 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 1e9dcf2..2232820 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -22,7 +22,7 @@ import { buildImagePatternDef, cyclicBackgroundLayer } from "./image-pattern.js"
 import { buildLinearGradientDef, buildRadialGradientDef, parseBgPositionPx, type GradientStop } from "./gradient-defs.js";
 import { advancedGradientTile, needsChromiumGradientRaster } from "./advanced-gradient-raster.js";
 import { computeTileSize } from "./conic-raster.js";
-import { isFlexOrGridContainerDisplay, establishesStackingContext, gatherStackingContextChildren, isOverflowOnlySC, isFixedContainingBlock, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
+import { isFlexOrGridContainerDisplay, establishesStackingContext, gatherAtomicBoxChildren, gatherStackingContextChildren, isOverflowOnlySC, isFixedContainingBlock, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
 export { parseGradientStops, buildRadialGradientDef, parseBgPositionPx } from "./gradient-defs.js"; // re-export for existing test importers
 import { buildMaskDef, buildMaskBorder9Slice, positionFragmentMaskDef, positionFragmentClipPathDef, rewriteFragmentMaskDef } from "./mask.js";
 // Re-export mask helpers used by focused geometry/emission tests.
@@ -4414,7 +4414,7 @@ function resolveChildPlan(
   if (establishesStackingContext(el, parentDisplayForEl)) {
     childrenForSort = gatherStackingContextChildren(el.children, hoistedFromAncestor, childDisplay, hoistedAsInlineForEl, overflowClipForHoisted, hoistedAsZSortedForEl);
   } else {
-    childrenForSort = el.children.filter((c) => !hoistedFromAncestor.has(c));
+    childrenForSort = gatherAtomicBoxChildren(el, hoistedFromAncestor, parentDisplayForEl, overflowClipForHoisted);
   }
   // DM-1052: pass the SC root's actual direct children so a flex/grid
   // `order` / `*-reverse` reorder of a flattened paint list keeps each
diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index d987735..81d99ee 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -11,7 +11,7 @@
  * not what the viewer sees.
  *
  * This module walks the tree in the RENDERER'S OWN paint order — the same
- * `gatherStackingContextChildren` / `sortChildrenByPaintOrder` traversal
+ * `gatherStackingContextChildren` / `paintOrderBuckets` traversal
  * `elementTreeToSvg` uses to emit the SVG (stacking contexts, z-index
  * buckets, float/inline hoisting, viewport-fixed pulling, preserve-3d
  * re-sort) — and takes the last hit. So the glyph matches whatever OUR
@@ -30,13 +30,10 @@
  *   escapes overflow clips entirely, mirroring the render path.
  * - `visibility: hidden` needs no handling — the capture script omits those
  *   elements from the tree entirely.
- * - One place this is deliberately flatter than the renderer: the renderer
- *   emits each in-flow block subtree twice (box decorations, then inline
- *   content) with the context's floats in between, so a float paints under
- *   text it overlaps. A hit sequence has one entry per element and can't hold
- *   both positions, so it keeps the float AFTER the block content — which is
- *   also what a browser hit-test does with an overlapping float (the float box
- *   is hit, even where the text paints on top of it).
+ * - One place this is deliberately flatter than the renderer: a block's own
+ *   text has no entry of its own, so a float keeps answering where the text of
+ *   the block it overlaps paints on top of it — which is also what a browser
+ *   hit-test does with an overlapping float (the float box is hit).
  *
  * The flattened sequence is memoized per tree (WeakMap on the roots array):
  * the cursor-timeline builder samples hundreds of points with bisection
@@ -46,9 +43,12 @@
 import type { CapturedElement } from "../capture/types.js";
 import {
   establishesStackingContext,
+  gatherAtomicBoxChildren,
   gatherStackingContextChildren,
   isFixedContainingBlock,
-  sortChildrenByPaintOrder,
+  paintOrderBuckets,
+  paintsAtomicallyAsInlineBox,
+  type PaintOrderBuckets,
 } from "./stacking.js";
 
 interface ClipRect { x: number; y: number; w: number; h: number }
@@ -72,8 +72,8 @@ function rectOf(el: CapturedElement): ClipRect {
 /**
  * Flatten a captured tree into the renderer's paint order. Mirrors
  * `elementTreeToSvgInner`'s top-level pass (implicit-root SC gather +
- * viewport-fixed pull + sort) and `renderChildren` (per-element SC gather /
- * hoist-skip filter + sort + preserve-3d re-sort).
+ * viewport-fixed pull + sort) and its per-element child plans (SC gather /
+ * hoist-skip filter, block pass then inline pass, preserve-3d re-sort).
  */
 export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
   // Defensive: hand-built trees (tests, library callers) may omit `styles` /
@@ -113,11 +113,14 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
       collectViewportFixed(e);
     }
   }
-  const sortedTop = sortChildrenByPaintOrder(topFlat, undefined, undefined, topInline, topZSorted);
 
-  const visit = (el: CapturedElement, parentDisplay: string | undefined, clips: ClipRect[]): void => {
-    out.push({ el, clips });
-    if (el.children == null || el.children.length === 0) return;
+  interface Plan { buckets: PaintOrderBuckets; display: string | undefined; childClips: ClipRect[]; flat3d: CapturedElement[] | null }
+  const flatOrder = (b: PaintOrderBuckets): CapturedElement[] => [...b.negative, ...b.base, ...b.floats, ...b.inlines, ...b.zeroOrAuto, ...b.positive];
+  // Memoized: gathering records what it hoists, so a second call would list less.
+  const plans = new Map<CapturedElement, Plan>();
+  const planOf = (el: CapturedElement, parentDisplay: string | undefined, clips: ClipRect[]): Plan => {
+    const known = plans.get(el);
+    if (known != null) return known;
     const childClips = overflowClips(el) ? [...clips, rectOf(el)] : clips;
     const display = el.styles.display;
     const inlineForEl = new Set<CapturedElement>();
@@ -126,30 +129,50 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
     if (establishesStackingContext(el, parentDisplay)) {
       childrenForSort = gatherStackingContextChildren(el.children, hoisted, display, inlineForEl, clipForHoisted, zSortedForEl);
     } else {
-      childrenForSort = el.children.filter((c) => !hoisted.has(c));
+      childrenForSort = gatherAtomicBoxChildren(el, hoisted, parentDisplay, clipForHoisted);
     }
-    let sorted = sortChildrenByPaintOrder(childrenForSort, display, el.styles.flexDirection, inlineForEl, zSortedForEl, new Set(el.children));
-    if (el.styles.transformStyle === "preserve-3d") {
-      sorted = sorted
+    const buckets = paintOrderBuckets(childrenForSort, display, el.styles.flexDirection, inlineForEl, zSortedForEl, new Set(el.children));
+    const flat3d = el.styles.transformStyle === "preserve-3d"
+      ? flatOrder(buckets)
         .map((c, idx) => ({ c, idx, z: c.styles.translateZ ?? 0 }))
         .sort((a, b) => a.z - b.z || a.idx - b.idx)
-        .map((x) => x.c);
-    }
-    for (const c of sorted) {
-      // A hoisted descendant that escaped an overflow-only scroller keeps
-      // that scroller's clip (unless fixed, which escapes overflow clips).
-      const escaped = clipForHoisted.get(c);
-      const cClips = escaped != null && c.styles.position !== "fixed"
-        ? [...childClips, rectOf(escaped)]
-        : childClips;
-      visit(c, display, cClips);
+        .map((x) => x.c)
+      : null;
+    const made: Plan = { buckets, display, childClips, flat3d };
+    plans.set(el, made);
+    return made;
+  };
+  const clipsFor = (c: CapturedElement, childClips: ClipRect[]): ClipRect[] => {
+    // A hoisted descendant that escaped an overflow-only scroller keeps
+    // that scroller's clip (unless fixed, which escapes overflow clips).
+    const escaped = clipForHoisted.get(c);
+    return escaped != null && c.styles.position !== "fixed" ? [...childClips, rectOf(escaped)] : childClips;
+  };
+  // The renderer's two passes over a context's in-flow children: block boxes,
+  // then (past the floats) inline-level boxes and the layers above them.
+  const visit = (el: CapturedElement, parentDisplay: string | undefined, clips: ClipRect[], phase: "all" | "box" | "inline"): void => {
+    if (phase !== "inline") out.push({ el, clips });
+    if (el.children == null || el.children.length === 0) return;
+    const plan = planOf(el, parentDisplay, clips);
+    if (plan.flat3d != null) {
+      if (phase !== "box") for (const c of plan.flat3d) visit(c, plan.display, clipsFor(c, plan.childClips), "all");
+      return;
     }
+    if (phase !== "inline") visitBoxes(plan);
+    if (phase !== "box") visitInline(plan);
   };
-  for (const el of sortedTop) {
-    const escaped = clipForHoisted.get(el);
-    const clips = escaped != null && el.styles.position !== "fixed" ? [rectOf(escaped)] : [];
-    visit(el, undefined, clips);
-  }
+  const visitBoxes = ({ buckets, display, childClips }: Plan): void => {
+    for (const c of buckets.negative) visit(c, display, clipsFor(c, childClips), "all");
+    for (const c of buckets.base) if (!paintsAtomicallyAsInlineBox(c, display)) visit(c, display, clipsFor(c, childClips), "box");
+    for (const c of buckets.floats) visit(c, display, clipsFor(c, childClips), "all");
+  };
+  const visitInline = ({ buckets, display, childClips }: Plan): void => {
+    for (const c of buckets.base) visit(c, display, clipsFor(c, childClips), paintsAtomicallyAsInlineBox(c, display) ? "all" : "inline");
+    for (const group of [buckets.inlines, buckets.zeroOrAuto, buckets.positive]) for (const c of group) visit(c, display, clipsFor(c, childClips), "all");
+  };
+  const top: Plan = { buckets: paintOrderBuckets(topFlat, undefined, undefined, topInline, topZSorted), display: undefined, childClips: [], flat3d: null };
+  visitBoxes(top);
+  visitInline(top);
   return out;
 }
 
diff --git a/src/render/stacking.ts b/src/render/stacking.ts
index c8fad7a..ea01656 100644
--- a/src/render/stacking.ts
+++ b/src/render/stacking.ts
@@ -331,7 +331,9 @@ export function gatherStackingContextChildren(
       // the float paint above every block background (step 3) and below every
       // piece of inline content (step 5), its own parent's text included, so
       // there is no case left where a float is better off painted in place.
-      const isFloat = !positioned && (c.styles.float ?? "none") !== "none";
+      // `float` has no effect on a flex/grid item (CSS Flexbox 1 §3), whatever its
+      // computed value says.
+      const isFloat = !positioned && !parentIsFlexGrid && (c.styles.float ?? "none") !== "none";
       // Non-positioned z:auto flex items stay inside their flex container.
       // They are atomic inline-level boxes internally (Flexbox §5.4), but are
       // not independent children of the enclosing stacking context. The
@@ -339,7 +341,11 @@ export function gatherStackingContextChildren(
       // before step-5 content, then walks that content in tree order. Hoisting
       // a flex item into the root inline bucket loses that tree order: an
       // overflowing early item paints over text in later flow siblings.
-      if (positioned || flexGridItemSC || (isFloat && !floatHoistBlocked)) {
+      // A non-positioned descendant that forms a real stacking context (opacity,
+      // transform, filter, …) paints at step 6 of the enclosing context, together
+      // with the positioned ones, so it leaves its parent's in-flow content too.
+      const isolated = !positioned && establishesStackingContext(c, childParentDisplay) && !isOverflowOnlySC(c);
+      if (positioned || flexGridItemSC || isolated || (isFloat && !floatHoistBlocked)) {
         out.push(c);
         hoistedOut.add(c);
         // DM-712 / DM-687: a flex/grid item hoisted because of its explicit
@@ -375,7 +381,8 @@ export function gatherStackingContextChildren(
         // positioned z=auto/0 element — its descendants' floats paint with
         // it atomically, not at the parent SC. Existing float-block state
         // propagates downward too.
-        const cBlocks = (positioned && !hasExplicitZ) || paintsAtomicallyAsInlineBox(c, childParentDisplay);
+        // A float paints atomically too, the floats inside it included.
+        const cBlocks = (positioned && !hasExplicitZ) || isFloat || paintsAtomicallyAsInlineBox(c, childParentDisplay);
         const nextOverflowAncestor = cIsOverflowOnly ? c : currentOverflowAncestor;
         collectFromNonSC(c, floatHoistBlocked || cBlocks, nextOverflowAncestor);
       }
@@ -392,7 +399,7 @@ export function gatherStackingContextChildren(
       const cPositioned = c.styles.position != null && c.styles.position !== "static";
       const cZRaw = c.styles.zIndex;
       const cHasExplicitZ = cZRaw != null && cZRaw !== "" && cZRaw !== "auto";
-      const cBlocksFloats = (cPositioned && !cHasExplicitZ) || paintsAtomicallyAsInlineBox(c, parentDisplay);
+      const cBlocksFloats = (cPositioned && !cHasExplicitZ) || isNonPositionedFloat(c) || paintsAtomicallyAsInlineBox(c, parentDisplay);
       // DM-673: if `c` is an overflow-only SC, mark `c` as the overflow
       // ancestor for any positioned descendant we hoist out of it.
       const nextOverflowAncestor = cIsOverflowOnly ? c : null;
@@ -402,6 +409,52 @@ export function gatherStackingContextChildren(
   return out;
 }
 
+/**
+ * The paint list of a box that paints atomically WITHOUT being a stacking
+ * context (a float, an inline-level box, a flex/grid item, a positioned box with
+ * `z-index: auto`): its own children, plus the floats nested in its in-flow
+ * block descendants — those paint in this box's float step, above every one of
+ * its block backgrounds. Anything that belongs to the enclosing stacking context
+ * has been hoisted already. Other boxes just list their remaining children.
+ */
+export function gatherAtomicBoxChildren(
+  el: CapturedElement,
+  hoistedOut: Set<CapturedElement>,
+  parentDisplay?: string,
+  overflowClipForHoisted?: Map<CapturedElement, CapturedElement>,
+): CapturedElement[] {
+  const isPositioned = (c: CapturedElement): boolean => c.styles.position != null && c.styles.position !== "static";
+  const atomic = (c: CapturedElement, display: string | undefined): boolean =>
+    isPositioned(c) || isNonPositionedFloat(c) || paintsAtomicallyAsInlineBox(c, display);
+  const own = el.children.filter((c) => !hoistedOut.has(c));
+  if (!atomic(el, parentDisplay)) return own;
+  const out: CapturedElement[] = [];
+  const collect = (parent: CapturedElement, overflowAncestor: CapturedElement | null): void => {
+    const display = parent.styles.display;
+    for (const c of parent.children) {
+      if (hoistedOut.has(c)) continue;
+      if (isNonPositionedFloat(c) && !isFlexOrGridContainerDisplay(display)) {
+        out.push(c);
+        hoistedOut.add(c);
+        if (overflowAncestor != null) overflowClipForHoisted?.set(c, overflowAncestor);
+      } else {
+        descend(c, display, overflowAncestor);
+      }
+    }
+  };
+  const descend = (c: CapturedElement, display: string | undefined, overflowAncestor: CapturedElement | null): void => {
+    if (atomic(c, display)) return;
+    const overflowOnly = isOverflowOnlySC(c);
+    if (establishesStackingContext(c, display) && !overflowOnly) return;
+    collect(c, overflowOnly ? c : overflowAncestor);
+  };
+  for (const c of own) {
+    out.push(c);
+    descend(c, el.styles.display, null);
+  }
+  return out;
+}
+
 /**
  * DM-673: returns true when `el` is a stacking context whose ONLY reason
  * for being one is `overflow != visible`. Such elements are scroll
@@ -656,7 +709,10 @@ export function paintOrderBuckets(
     const flt = c.styles.float ?? "none";
     const zRaw = c.styles.zIndex;
     const positioned = pos != null && pos !== "static";
-    const z = zRaw === "auto" || zRaw === "" || zRaw == null ? NaN : parseInt(zRaw, 10);
+    // `z-index` applies to positioned boxes and flex/grid items only.
+    const isItem = (isFlexGrid && (directChildren == null || directChildren.has(c))) || paintAsZSorted?.has(c) === true;
+    const zApplies = positioned || isItem;
+    const z = !zApplies || zRaw === "auto" || zRaw === "" || zRaw == null ? NaN : parseInt(zRaw, 10);
     // DM-939: per CSS 2.1 Appendix E step 6 a non-positioned element that
     // STILL establishes a stacking context (transform, opacity < 1,
     // filter, mix-blend-mode, mask, clip-path, isolation, will-change, …)
@@ -672,10 +728,9 @@ export function paintOrderBuckets(
       && establishesStackingContext(c, parentDisplay)
       && !isOverflowOnlySC(c);
     const treatAsZSorted = positioned
-      || (isFlexGrid && !isNaN(z))
-      || (paintAsZSorted?.has(c) === true)
+      || (isItem && !isNaN(z))
       || isNonPosSc;
-    if (!treatAsZSorted && flt !== "none") {
+    if (!treatAsZSorted && flt !== "none" && !isFlexGrid) {
       floats.push(c);
     } else if (!treatAsZSorted && paintAsInline?.has(c) === true) {
       // DM-683: hoisted flex/grid items paint at step 5 (inline-level) of
-- 
2.43.0

