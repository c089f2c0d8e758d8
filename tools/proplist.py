TV = "TLA+ state machine model-checked with TLC; scenarios exported from it drive the real code; recorded observations validated by TLC trace specification"
prop("A01", "Frames play in order, on schedule, with no wrong or blank picture",
 "For any sequence of frames with any mix of hand-over styles and lengths, an animated SVG shows the frames in the given order, each held frame alone, fully opaque and in place for exactly its hold, starting when all earlier holds and hand-overs have elapsed, and it loops with their total (to the printed clock resolution). During a hand-over only the two neighbouring frames may be seen, a cut or zero-length hand-over never exposes an empty canvas, pushes and reveals keep the canvas covered, and the incoming frame's share never shrinks. The last frame stays solid to the end of the loop unless a loop fade was requested.",
 ["inputs", "programs"], "all frame counts, hold lengths, hand-over lengths (including zero), hand-over styles and their mixes, loop-fade on or off, all instants of the timeline",
 "Tests compare keyframe strings of a few same-type chains; whether the composed opacity, visibility, transform and clip tracks of every frame add up to exactly one right picture at every instant depends on all ordered pairs of styles and lengths.",
 ["src/animation/animator.ts", "src/animation/frame-timeline.ts", "src/animation/transition-schema.ts", "src/utils/keyframe-pad.ts"],
 [("per-frame opacity/visibility/transform/clip tracks", "src/animation/animator.ts generateAnimatedSvg"), ("scene clock", "src/animation/frame-timeline.ts frameAdvanceMs"), ("entrance/exit composition", "src/animation/animator.ts emitComposedFrame")],
 TV, note="Exhaustive over all 1-2 frame plans and all 3-frame plans of the 14 built-in styles in the model (one representative length class each), plus seeded larger plans with parameterized styles, zero lengths and defaults; pictures sampled at 4 quadrant points by an independent CSS/SVG evaluator (trusted).", observe=["the generated SVG document, evaluated over time"])

prop("A02", "Overlays appear only in their windows and type exactly their text",
 "An overlay (typed text, tap, blink, sheen, interaction, inset graphic) placed on a frame is invisible before its start delay and after its end, and never shown outside that frame's own time (typed text that outlasts nothing may dissolve with its frame's own exit, or fade just before a loop ends); within its window it shows as configured: taps last their own time, blinks alternate, inset graphics enter from and exit to where they are told. Typed text appears one character at a time in order at the configured speed (squeezed evenly when the window is shorter; jitter moves the moments, not the order), every prefix shown is a prefix of the requested text, laid out in its wrapped lines (an intentional slip shows one wrong character that is removed again before typing goes on), the complete text is shown once typing ends, and the caret sits after the last typed character.",
 ["inputs", "programs"], "all frame plans, overlay kinds, delays, durations, ends, texts, speeds and typing modes",
 "Tests pin a handful of overlays in one frame; the window is a function of the frame offset, delay, end, exit and total length together.",
 ["src/animation/animator.ts", "src/animation/overlay-schema.ts", "src/animation/resolve-overlays.ts"],
 [("overlay window", "src/animation/animator.ts overlayWindowEndMs / emitFrameOverlays"), ("typing plan", "src/animation/animator.ts buildTypingPlan")], TV, note="", observe=["the generated SVG document, evaluated over time"])

prop("A03", "Embedded animations keep their own timing inside the host timeline",
 "When an animated document is embedded in a larger one with a start time and a hold, stretch or loop mode, at every host time it shows what the original shows at the mapped local time: its first moment before the start, the original's moment at (elapsed) or (elapsed scaled to the window) or (elapsed modulo its period), and its last visible moment after it ends in hold or stretch mode; whatever does not fit into the host loop is cut off at the loop's end. Animations with an unrelated period keep running freely. In hold and stretch mode the result repeats with the host loop.",
 ["inputs", "configurations"], "all embedded timelines, start offsets, periods, windows, modes, host lengths and instants",
 "Tests check a few rewritten keyframe percentages; equality with the original picture at every instant is a relation over all keyframe sets and offsets.",
 ["src/animation/embed-timeline.ts", "src/animation/composite.ts", "src/animation/animator.ts"],
 [("timeline remap", "src/animation/embed-timeline.ts offsetEmbeddedAnimatedSvgTimeline"), ("layer composition", "src/animation/composite.ts composeAnimatedLayers")], TV, note="", observe=["the composed SVG document, evaluated over time"])

prop("A04", "Combining documents never mixes up their names",
 "When several SVG documents (frames, layers, embedded animations, inlined icons) are combined into one, every internal reference that resolves inside its own source still points to that source's element, style class or animation, no identifier is defined twice, no source's style rules reach another's elements, and visible text is left as it was. This holds even when the sources use identical or prefix-related names for ids, classes and animations.",
 ["inputs", "programs"], "all sets of source documents and name overlaps",
 "Tests use single hand-picked collisions; freedom from capture is a property of all pairs of names used by all sources.",
 ["src/animation/embed-namespace.ts", "src/animation/composite.ts", "src/render/svg-inline.ts", "src/animation/animator.ts"],
 [("embedded document namespacing", "src/animation/embed-namespace.ts namespaceEmbeddedAnimatedSvg"), ("frame id de-duplication", "src/animation/animator.ts dedupeFrameIds"), ("inline svg prefixing", "prefixSvgIds / prefixSvgClasses / inlineImgSvg")], TV, note="", observe=["the combined SVG document"])

prop("A05", "A compressed run shows each state's picture at that state's time",
 "A run of captured page states compressed into one document shows, throughout each state's hold, exactly the text and boxes of that state: every glyph and box of the state is visible at its place, and nothing of any other state is. States follow each other in order with their holds and the run loops with the sum of the holds.",
 ["inputs", "histories"], "all sequences of states with insertions, deletions, moves and recolourings of text and boxes, and all holds",
 "The compressor aligns text lines and reuses shared pieces across states; whether the reuse is right depends on the whole edit history, while tests replay a few.",
 ["src/animation/compressed-run.ts", "src/animation/glyph-align.ts"],
 [("run planning and composition", "src/animation/compressed-run.ts composeCompressedRun"), ("glyph alignment", "src/animation/glyph-align.ts alignLineGlyphs")], TV, note="", observe=["the composed SVG document, evaluated over time"])

prop("A06", "Caret and selection follow the declared editing script",
 "For any script of caret placements, hides, selections and clears over captured text, the rendered caret stands at the position of the most recent placement and is hidden whenever the latest caret event hid it (at the same instant a placement beats a hide). Each selection sweeps out from its anchor during its own time and then stays until a clear, which removes the most recent selection still shown; other selections stay. The rectangles shown are exactly those of the characters swept so far, whatever their number. Events take effect at their own times, in time order; nothing shows before its event or outside the loop, and every loop repeats the first.",
 ["inputs", "histories"], "all event scripts, text layouts, caret shapes and timeline lengths",
 "Tests evaluate short fixed scripts; the state at a time is a fold over the whole event history.",
 ["src/animation/caret-track.ts", "src/animation/text-address.ts"],
 [("track resolution and markup", "src/animation/caret-track.ts resolveTextTrack / textTrackMarkup")], TV, note="Bounds: model scripts of up to four events over six instants; seeded scripts of up to ten events over wrapped, spaced and right-to-left text. Not covered: negative event times, neutral characters in mixed-direction runs.", observe=["the rendered track evaluated over time"])

prop("A07", "The demo pointer follows its script",
 "For any script of pointer moves and clicks the rendered pointer is at each move's target at the time the move ends, travels there in a straight line only during the declared move window (at once when the move has no duration) and stays still otherwise; a move that is interrupted by another event ends where the pointer is at that moment, and whatever lies past the end of the loop is cut off. A click's ring is visible only from its click for its length, growing around the place where the pointer was at the click. The shape is the one under the pointer in the frame shown (or the one forced by the event); shape switching never shows two pointer shapes, or none, while the pointer is visible, and every loop repeats the first.",
 ["inputs", "histories"], "all pointer scripts and timeline lengths",
 "Tests look at a few keyframe strings for one or two events.",
 ["src/animation/cursor-overlay.ts"], [("pointer track", "src/animation/cursor-overlay.ts resolveCursorScript, cursorOverlayMarkup")], TV, note="Exhaustive over the model's three-event scripts (sampled in the quick run), plus seeded scripts of up to nine events over up to four frames. The CSS evaluator and the glyph catalogue are trusted.", observe=["the generated SVG document, evaluated over time"])

prop("A08", "Scripted element animations follow their declared windows",
 "An element animated within a frame shows its starting value until its window opens, moves along its requested easing through the window (including any overshoot), shows its end value afterwards, and does so on every loop of the scene whatever the frame's position in it, even when the window runs past the scene's end. Repeating animations keep their own period, count and direction. Several properties animated together each keep their own window and easing and compose in the order written about the requested origin; a moving container carries everything inside it, and opacities multiply.",
 ["inputs", "schedules"], "all frame plans, nestings, tracks (translate, scale, opacity), delays, lengths, easings, repeats, directions and origins, all instants of several loops",
 "Timelines are rewritten into shared percentages of the whole scene (or baked into stops); tests compare a few keyframe strings, not what is seen at each instant.",
 ["src/animation/animator.ts", "src/animation/easing.ts", "src/render/element-tree-to-svg.ts", "src/tree-ops/index.ts"], [("timeline emission and baking", "src/animation/animator.ts buildIntraFrameAnimationCss"), ("easing curves", "src/animation/easing.ts resolveEasing, interpolateCssValue")], TV, note="Exhaustive over the model's one- and two-element documents (windows, curves, repeats, alternation, origins), plus seeded documents of up to three frames; colour, px values of other properties and step curves inside independently timed groups are not covered. The CSS evaluator is trusted.", observe=["painted matrix and opacity of every animated element over three loops"])

prop("T01", "A terminal recording shows the screen as it was at every moment",
 "A recording's screen is photographed whenever its output pauses for at least settleMs and once at its end; equal consecutive photographs become one, a blank leading one is dropped, and each is held for the pause it preceded, kept within [minFrameMs, maxFrameMs] (a merged hold within the maximum; the tail after the last output). The film shows those screens in order, and at every instant outside a line's short slide exactly that screen: its characters in their cells with the colours and styles the control sequences gave them (reverse video, concealed and wide characters, erased cells with their background, scroll regions, insertion and deletion, the alternate screen and resizes included). A caret, where one is drawn, sits on the recorded cursor's cell, is never drawn while the program hides the cursor, and is drawn on a line being typed at. The picture does not depend on how the recording split output with equal timestamps into chunks. Both composition modes show the same.",
 ["inputs", "histories"], "all recordings: chunk sequences, chunk boundaries, timings, sizes and control sequences in the supported set",
 "Tests play a few casts; the screen at a time is a fold over the whole byte history and its chunking.",
 ["src/terminal/cast.ts", "src/terminal/emulator.ts", "src/terminal/render.ts", "src/terminal/index.ts", "src/terminal/incremental.ts"],
 [("cast parsing and screen sampling", "src/terminal/emulator.ts"), ("screen rendering", "src/terminal/render.ts, incremental.ts")], TV, note="", observe=["the terminal animation document, evaluated over time"])

prop("S01", "A scroll script moves the page exactly as written",
 "Executing a scroll script performs its actions in order: each absolute or relative scroll ends at its resolved target clamped to the scrollable range, pauses last as declared, repeats run their count, and conditional repeats stop as soon as their condition holds and always terminate. The scene clock advances by exactly the time each action declares (or distance divided by speed), and every stop is captured.",
 ["programs", "inputs"], "all scripts of the grammar and all page sizes and viewport sizes",
 "Tests execute a few hand-written scripts; ordering, clamping and clock accounting compose over nested repeats.",
 ["src/scroll/pattern.ts", "src/scroll/executor.ts"], [("grammar", "src/scroll/pattern.ts parseScrollPattern"), ("execution", "src/scroll/executor.ts executeScrollPattern")], TV, note="", observe=["scroll calls and captures on a fake page"])

prop("S02", "A composed scroll scene shows the right part of the page at every time",
 "At the end time of every recorded scroll step the scene shows exactly the page content that step captured at its scroll offset, between steps it moves continuously and monotonically from one offset to the next, and a pause holds still for its whole length. Pinned content stays where it was on screen, content is never missing from the visible window, and the scene loops with the total time.",
 ["inputs", "histories"], "all step lists: offsets, axes, times, content changes between steps, pinned elements",
 "Tests check strings for two or three segments; the visible window at a time combines every segment's transform and visibility tracks.",
 ["src/scroll/composer.ts", "src/tree-ops/hoist-fixed.ts", "src/tree-ops/hoist-sticky.ts", "src/tree-ops/prune-tree.ts"], [("composition", "src/scroll/composer.ts composeScrollSvg")], TV, note="", observe=["the composed SVG document, evaluated over time"])

prop("R01", "Painting order follows the CSS stacking rules",
 "For every tree of boxes, the rendered SVG paints overlapping boxes in the order CSS prescribes: within a stacking context, negative layers, then in-flow blocks, floats, inline content, then auto/zero layers in document order (positioned boxes and boxes that form a stacking context through opacity, filters, transforms and the like alike), then positive layers, with nested stacking contexts, positioned boxes, floats and inline-blocks painted as units at their own step. z-index counts only on positioned boxes and flex or grid items, and float does not apply to those items or to absolutely positioned boxes. Hit-testing the same tree returns the box that is painted topmost at the point.",
 ["inputs", "programs"], "all box trees over positioned/non-positioned, z-index, opacity, transform, float, inline-block and overflow combinations",
 "Tests fix individual trees; the order is a recursive function of the whole tree.",
 ["src/render/stacking.ts", "src/render/paint-order.ts", "src/render/element-tree-to-svg.ts"], [("paint order", "src/render/stacking.ts, paint-order.ts"), ("hit test", "src/render/paint-order.ts hitTestTopmost")], TV, note="Exhaustive over the model's trees of up to three boxes (four in the thorough run), plus seeded trees of up to fourteen. Not covered: overflow clipping, position: fixed, reversed flex order, 3D contexts.", observe=["order of painted boxes in the SVG"])

prop("R02", "Skipping off-screen content never hides anything visible",
 "Elements left out or hidden because they lie outside the visible area never include one whose painted area, at any time of the animation, intersects the visible area; everything visible stays painted for the whole time it is visible. Elements hidden for part of the timeline are shown again in time.",
 ["inputs", "schedules"], "all element trees, animations (translation, scale, rotation, any easing), frame offsets and viewport sizes",
 "Whether a moving box ever enters the window is a universally quantified statement over time; tests check a few trajectories.",
 ["src/tree-ops/viewbox-culling.ts", "src/tree-ops/swept-transform-bounds.ts"], [("culling decision", "viewbox-culling.ts cullElementsOutsideViewBox"), ("swept bounds", "swept-transform-bounds.ts")], TV, note="", observe=["cull marks and generated visibility windows"])

prop("R03", "A page difference accounts for every element exactly once",
 "Comparing two captured page trees lists every element of the old tree exactly once as kept, moved, modified or removed and every element of the new tree exactly once as kept, moved, modified or added, with the right positions in both trees and the right shift; kept and moved elements have the same tag, text and descendants as their partners, whatever characters their texts contain. The most common shift and its share are those of the moved elements. A morph built from the comparison opens looking like the old page and closes looking like the new page; in between, elements that do not move stay where they are and a moving element with an unchanged look is between its two places. A morph is offered exactly when something moved, appeared or disappeared, and neither operation alters its inputs. (Elements recoloured in place take their new look at once; the painting order among fading copies is not part of the property.)",
 ["inputs", "histories"], "all pairs of element trees",
 "Pairing is heuristic over whole trees with duplicates; tests cover single edits.",
 ["src/tree-ops/tree-diff.ts", "src/animation/magic-move.ts"], [("diff", "tree-diff.ts diffTrees"), ("morph", "src/animation/magic-move.ts buildMagicMove")], TV, note="", observe=["diff result; bridge layer at its start, inside and at its end"])

prop("R04", "Sharing repeated image data never changes the picture",
 "After repeated embedded image data is moved into shared definitions, every image that was painted is painted with the same data at the same place, size, clip and visibility, in the same order, and no two definitions share an identifier. Repeating the operation changes nothing further, and documents with nothing to share come out unchanged.",
 ["inputs"], "all SVG documents with image elements, payload repetitions and attribute sets",
 "The rewrite is textual and must hold for every attribute combination and identifier already in the document.",
 ["src/post-processing/hoist-image-payloads.ts"], [("hoist", "hoist-image-payloads.ts hoistDuplicateImagePayloads")], TV, note="", observe=["the rewritten document"])

prop("R05", "Rendering is repeatable and independent of what was rendered before",
 "Rendering the same captured tree or animation gives byte-identical output no matter what was rendered before it in the same process, including renders that failed, and documents that share definitions across renders still contain a definition for everything they reference. Rendering never modifies the tree it was given.",
 ["histories", "fault_sequences"], "all sequences of renders with differing text, fonts, modes and failures",
 "Tests render once per process state; history dependence only shows in specific orders of renders.",
 ["src/render/element-tree-to-svg.ts", "src/render/text-to-path.ts", "src/render/embedded-font-builder.ts"], [("glyph registry, embedded fonts, text mode", "src/render")], TV, note="", observe=["rendered documents"])

prop("H01", "A downloaded helper is only ever used complete and verified",
 "Acquiring a native helper leaves at its final path either nothing new or a complete executable whose checksum matches the published one, whatever fails on the way (network errors, bad checksums, truncated data, disk errors, crashes between steps) and whatever concurrent acquirers do; it never leaves a temporary file behind on a handled failure, never replaces an existing helper with a bad one, and never makes the caller fail.",
 ["fault_sequences", "crash_points", "schedules"], "all failure points of the download, checksum, write, permission and rename steps, and concurrent acquirers",
 "Tests mock one failure at a time.",
 ["src/render/helper-acquire.ts", "src/render/icu-helper-acquire.ts"], [("download, verify, rename", "helper-acquire.ts downloadAndInstall")], TV, note="", observe=["files in the cache directory, results returned"])

prop("H02", "Each native-helper request gets its own answer, whatever the helper does",
 "Every request sent to the native text helper receives the answer for that request or a clean fallback, never another request's answer, even when the helper crashes, stalls, exits mid-reply, emits stray, malformed or reordered replies, splits a reply anywhere, or is restarted. A helper that never worked is not retried on its persistent channel for the rest of the process, one that worked before is restarted, a late notice of an old helper's end does not disturb the new one, and no failure of the helper raises an error to the renderer or holds it up for ever.",
 ["fault_sequences", "histories"], "all sequences of requests and helper failures",
 "Tests run with the helper absent or healthy.",
 ["src/render/glyph-helper.ts"], [("persistent channel", "glyph-helper.ts")], TV, note="The helper is a scripted stand-in whose faults the model chooses; the real helper's text shaping is not covered.", observe=["answers returned with a scripted fake helper"])

prop("X01", "Trimming an animation shows exactly the chosen span",
 "A trimmed animation shows, at every time of its first span, what the original shows that much later than the chosen start. Animations that last the whole original loop, and scheduled SMIL animations, then repeat with the length of the chosen span and never show anything outside it; animations on a clock of their own (a blinking caret) and rules that mix both keep running on unchanged.",
 ["inputs", "schedules"], "all animations, span starts and lengths, and instants",
 "Tests check a few rewritten strings; picture equality over the span quantifies over all keyframe sets.",
 ["src/scrubber/trim.ts", "src/scrubber/crop.ts"], [("trim", "src/scrubber/trim.ts trimAnimatedSvg"), ("crop", "src/scrubber/crop.ts")], TV, note="", observe=["the trimmed SVG document, evaluated over time"])

prop("X02", "Video export delivers every frame once, in order, at the right time",
 "Exporting an animation to video captures exactly the number of frames that the duration and frame rate call for, each at the timeline instant belonging to its index, and delivers them to the encoder once each in order at the requested size, fitted without distortion. The default duration is long enough for every finite animation to end and for all looping animations to complete a whole number of loops together. On any failure, of the page, the browser, the encoder or the disk, the export reports one error, leaves no encoder waiting, browser open or error unhandled.",
 ["inputs", "fault_sequences"], "all durations, frame rates, sizes, animation periods and failure points",
 "Tests check pure helpers with sample numbers; ordering and cleanup depend on where a failure strikes.",
 ["src/cli/svg-to-video-core.ts"], [("export loop", "svg-to-video-core.ts runSvgToVideo")], TV, note="The browser is a fake and the encoder a script; what Chromium paints and how ffmpeg encodes are not covered. Alternating directions are not counted as doubling a loop.", observe=["calls on an injected fake browser and encoder"])

prop("X03", "Local servers serve only their own files, answer always, and survive failures",
 "The review and scrubber servers listen on the loopback address only and answer every request: the review server with exactly the bytes its files had when it started, the scrubber with its page, its script, or the result of the operation asked for; the page carries the document or label it was given unharmed whatever markup that contains. Other paths, methods and malformed or out-of-range requests are refused and change nothing on disk. Requests that need the browser run one at a time, each on its own document, size, times and clamped crop (a reversed video range is put in order), and return that request's own result. A failed page call, a page or browser that dies, a page that cannot be opened or an encoder that fails costs only the request at hand: the server keeps running, the next request gets a working page, and no browser, encoder or temporary folder is left behind. Tickets are refused outside review mode; in it each becomes a new file in the ticket folder, whatever its name, and none overwrites another.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all request paths, bodies, sizes and names, all orders and overlaps of requests, all failure points among browser calls and encoder runs",
 "Tests request one or two routes and validate a few bodies; whether one request's failure or an overlap spoils another depends on the interleaving.",
 ["src/utils/local-server.ts", "src/review/server.ts", "src/scrubber/server.ts", "src/scrubber/crop.ts"], [("request handling and validation", "src/scrubber/server.ts startScrubberServer, src/review/server.ts startReviewServer"), ("page queue and recovery", "src/scrubber/server.ts withChromium / getPage"), ("video export", "src/scrubber/server.ts renderRangeVideo"), ("crop", "src/scrubber/crop.ts clampCrop")], TV, note="Model: every schedule of up to three requests with one failure and two requests with three. The browser is a gated fake whose calls the schedule lets through, fails or kills; the encoder is a script. What Chromium paints is not covered.", observe=["HTTP answers", "the calls made on the fake browser", "the scratch folder, temporary folders, processes and browsers left"])

prop("C01", "Capturing leaves the page as it was found",
 "After a capture step that temporarily changes the live page to take measurements or snapshots (hiding content, changing styles, forcing states, scrolling), the page has every style, attribute, scroll position and override it had before, even if any protocol call in between fails or the page disappears, and protocol sessions are released.",
 ["fault_sequences"], "all failure points among the page and protocol calls of each temporary change",
 "Tests fail at most one specific call.",
 ["src/capture/index.ts", "src/capture/native-control-raster.ts", "src/capture/broken-image-icon-raster.ts", "src/capture/scrollbar-capture.ts", "src/capture/native-scrollbar-raster.ts"], [("set/restore pairs", "src/capture/*")], TV, note="", observe=["calls on a fake page and session"])

prop("F01", "Storyboards place every scene and layer where and when declared",
 "A storyboard shows its scenes in order for their declared durations with the declared hand-overs, each scene's picture is the scene's own document for its whole time, overlays and layers appear in their declared windows and places, and explicit parameters win over brand values, which win over defaults. Invalid storyboards are rejected with an error naming the offending part rather than rendered wrongly.",
 ["configurations", "programs"], "all storyboards of scene lists, durations, hand-overs, layers and parameter sources",
 "Tests compose a few storyboards.",
 ["src/cli/storyboard.ts", "src/templates", "src/animation/composite.ts"], [("storyboard composition", "src/cli/storyboard.ts composeStoryboardConfig")], TV, note="", observe=["the composed SVG document, evaluated over time"])
