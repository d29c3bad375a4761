#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": hook}})
TP, VC, VH, VA = "src/core/vsthreadpool.cpp", "src/core/vscore.cpp", "src/core/vscore.h", "src/core/vsapi.cpp"
SF, RF, AF = "src/core/simplefilters.cpp", "src/core/reorderfilters.cpp", "src/core/audiofilters.cpp"

p("C01", "Every frame request is answered exactly once with the right frame",
  "Every getFrame/getFrameAsync call on any filter graph completes exactly once: with frame n exactly as the filters of the graph define it, or with an error if a filter it depends on failed or n is outside the clip; it never hangs, is never answered twice and never gets another request's frame. This holds for any number of threads, any set of requests in flight from any number of client threads, any filter modes, any cache configuration and any memory limit. Requests a filter makes beyond the end of an input clip yield that clip's last frame.",
  ["schedules", "programs"], "all filter graphs, request sets, thread counts, cache settings and interleavings of worker and client threads",
  "the tests run a few graphs under whatever schedule the machine picks; lost wakeups, double completions and mixed-up results need particular interleavings of task selection, completion and parking",
  [TP, "src/core/vsthreadpool.h", VC, VA],
  [("tasks", "frame contexts queued to run", f"{TP} VSThreadPool::tasks"), ("allContexts", "pending internal requests by (node, n)", f"{TP} VSThreadPool::allContexts"), ("numFrameRequests", "outstanding inputs of a context", "src/core/vscore.h VSFrameContext")],
  [("task selection and admission", f"{TP} runTasks"), ("external request", f"{TP} startExternal"), ("completion", f"{TP} returnFrame")],
  ["vsapi getFrame", "vsapi getFrameAsync callback", "filter getFrame activations"])
p("C02", "Filter modes and callback exclusivity are respected",
  "The getFrame function of an fmUnordered or fmFrameState filter instance is never executed by two threads at the same time; an fmFrameState instance never has two output frames in progress at once (from arInitial until that frame is returned or failed); and an fmParallelRequests instance never runs two arAllFramesReady activations at the same time. Callbacks of getFrameAsync requests on one core are never run concurrently with each other.",
  ["schedules"], "all interleavings of worker threads and client requests",
  "overlap needs two workers to reach the same instance within microseconds; tests cannot force or observe it",
  [TP, VH], [("serialMutex", "held while an exclusive activation runs", f"{VH} VSNode::serialMutex"), ("serialFrame/serialOwner", "frame that owns an fmFrameState instance", f"{VH} VSNode")],
  [("try-lock before activation", f"{TP} runTasks"), ("callbackLock", f"{TP} returnFrame")], ["filter getFrame entry/exit", "getFrameAsync callback entry/exit"])
p("C03", "The filter activation protocol is followed",
  "For each output frame a filter instance is asked for, its getFrame function is called once with arInitial and then, if it requested frames, exactly once more: with arAllFramesReady only after every requested frame is available, or with arError if any requested frame failed. In the second call frameData holds what the first call stored and getFrameFilter returns, for every (n, clip) requested, that clip's frame n, and null for what was not requested or was released early. Concurrent requests by several filters for the same frame of the same instance cause one activation sequence whose result all of them get.",
  ["schedules", "programs"], "all dependency graphs, request patterns and schedules",
  "premature or repeated activations only appear when inputs complete in unusual orders or when requests for the same frame coincide",
  [TP, VC, VA], [("availableFrames", "frames delivered to a context", f"{VH} VSFrameContext"), ("notifyCtxList", "contexts waiting for this one", f"{VH} VSFrameContext")],
  [("notify dependents", f"{TP} runTasks"), ("request batching", f"{TP} startInternalRequest"), ("getFrameFilter", f"{VA} getFrameFilter")], ["filter getFrame activations", "getFrameFilter"])
p("C04", "A failed frame fails exactly the requests that depend on it",
  "When a filter reports an error for a frame, every request that depends on that frame completes with a null frame and the message of a filter that failed, after each intermediate filter got arError instead of arAllFramesReady. Requests that do not depend on the frame are unaffected, and the failure is not remembered: the same frame requested again later is processed again. A getFrame or getFrameAsync call for a frame number outside the clip fails with an error without any filter being asked for another frame.",
  ["schedules", "fault_sequences"], "all graphs, placements of failing frames and schedules",
  "tests fail a single frame of a single filter; propagation through shared, diamond-shaped and partly completed graphs is not covered",
  [TP, VC, VA], [("hasError/errorMessage", "error state of a context", f"{VH} VSFrameContext")], [("error propagation", f"{TP} runTasks"), ("range check", f"{VA} getFrameAsync")], ["getFrame error buffer", "getFrameAsync errorMsg", "arError activations"])
p("C05", "Frame caches follow their configuration",
  "A node with caching disabled runs its filter for every request that is not concurrent with an identical one. A node with cmForceEnable and fixed options (fixedSize 1, maxSize N) serves a request without running its filter exactly when the frame is among the N most recently used distinct frames since the cache was last cleared or reconfigured, and memory is not over the limit; maxSize values below zero leave the setting unchanged. setCacheMode resets the options to their defaults, clearNodeCache empties that node's cache and clearCoreCaches all of a core's, and a cached request returns the same frame content and properties the filter produced.",
  ["histories", "configurations"], "all sequences of requests and cache-control calls",
  "tests never look at which frames a cache retains; eviction order errors and stale frames need long access histories",
  [VC, VH, VA], [("VSCache", "LRU list with history", f"{VH} VSCache")], [("lookup/promotion", f"{VC} VSCache::object"), ("insertion and trim", f"{VC} VSCache::insert/trim"), ("setCacheMode/Options", f"{VC} VSNode")], ["setCacheMode", "setCacheOptions", "clearNodeCache", "clearCoreCaches", "filter getFrame activations"])
p("C06", "Maps behave as sorted typed multimaps with the documented error codes",
  "A VSMap holds keys in ascending order, each with one property type and an ordered list of values; maReplace, maAppend, mapSetEmpty, array setters, mapDeleteKey, clearMap, copyMap and mapSetError change exactly the addressed key or map as documented, and a call that reports failure changes nothing. Getters return the stored value bit for bit, mapGetIntSaturated clamps to the int range, and failures report peUnset, peIndex, peType or peError (missing key, index out of range, other type, map in the error state). Invalid key names and values of the wrong type are rejected.",
  ["histories", "inputs"], "all sequences of map operations",
  "tests set and read a few keys through Python; the error codes, type rules and interactions of operations are a product space they do not sample",
  [VA, VH, VC], [("VSMapStorage::data", "key to value array", f"{VH} VSMapStorage"), ("error flag", "map holds an error", f"{VH} VSMapStorage")], [("propSetShared/propGetShared", VA), ("copy/insert/erase", f"{VH} VSMap")], ["map* API functions"])
p("C07", "Copies of maps and frames are independent values",
  "After copyMap, copyFrame, newVideoFrame/newVideoFrame2/newAudioFrame2 with a property or plane source, writing to the copy never changes what is read from the original (or any other copy) and vice versa: keys, values, array contents, frame properties and every plane or channel. A copy initially reads the same as its source. A read pointer obtained from one frame stays valid and unchanged while another frame that shared its plane is written.",
  ["histories"], "all sequences of copy, derive, write and free operations on maps and frames",
  "copy-on-write errors show only when a particular sharing pattern is followed by a particular write; tests do not build such histories",
  [VC, VH, VA], [("VSPlaneData refcount", "sharing of plane memory", f"{VH} VSPlaneData"), ("VSMapStorage/VSArray refcount", "sharing of properties", VH)], [("getWritePtr detach", f"{VC} VSFrame::getWritePtr"), ("map detach", f"{VH} VSMap::detach")], ["getReadPtr/getWritePtr", "getFramePropertiesRO/RW", "map getters"])
p("C08", "References are counted exactly: objects die when the last reference goes",
  "A filter instance's free function, a VSFunction's free function and a log handler's free function each run exactly once: not before the last reference (from API users, including the node reference a caller keeps while its request runs, other filters depending on it, maps, frames' properties or functions) is gone, and at the latest when it is gone. A frame's memory is released when the last reference to its planes is gone. Filters stay usable as long as a dependent filter exists, even after the user freed their own references, and arbitrarily long filter chains can be released.",
  ["histories", "schedules"], "all sequences of taking, storing and dropping references, also while requests are running",
  "leaks and early frees depend on the order in which holders let go; tests rarely check either",
  [VC, VH, VA], [("refcount", "references to an object", "src/core/intrusive_ptr.h"), ("numFilterInstances", "live instances of a core", f"{VC} VSCore")], [("release", f"{VH} add_ref/release"), ("deferred instance destruction", f"{VC} VSCore::destroyFilterInstance")], ["free callbacks", "getCoreInfo used memory"])
p("C09", "Frame memory accounting is exact",
  "usedFramebufferSize of a core is at all times the total size of the frame buffers alive: it grows when a plane is allocated or made private, does not change when planes are shared by reference or copyFrame, and returns to its earlier value when frames are freed, to zero when none are left, per core. setMaxCacheSize with a positive value sets and returns the limit, with any other value only returns the current limit, and getCoreInfo reports it.",
  ["histories"], "all sequences of frame allocation, copying, writing and freeing on one or several cores",
  "tests never compare the counter against live frames",
  ["src/core/memoryuse.cpp", VC], [("MemoryUse::allocated", "bytes in live buffers", "src/core/memoryuse.cpp")], [("allocate/deallocate", "src/core/memoryuse.cpp"), ("plane ctor/dtor", f"{VC} VSPlaneData")], ["getCoreInfo usedFramebufferSize", "setMaxCacheSize"])
p("C10", "Plugin functions accept exactly the arguments their signature declares",
  "invoke runs a function only if the argument map holds every required argument, no undeclared ones, each of the declared type, single values for non-array arguments and no empty array where not allowed; otherwise the returned map carries an error and the function is not run. Registration accepts exactly well-formed unique names and signatures on a plugin that is still configurable, plugin identifiers and namespaces are unique, and enumeration and lookup by id, namespace and name return exactly what was registered. A function's results are returned unchanged.",
  ["inputs", "histories"], "all signatures, argument maps and registration sequences",
  "tests call functions with mostly valid arguments; the grammar and the argument checks form a large input space",
  [VC, VA], [("VSPluginFunction::inArgs", "parsed signature", f"{VH} VSPluginFunction"), ("plugin registries", "plugins by id and namespace", f"{VC} VSCore")], [("argument check", f"{VC} VSPluginFunction::invoke"), ("signature parser", f"{VC} VSPluginFunction::parseArgString"), ("registration", f"{VC} VSPlugin::registerFunction")], ["registerFunction", "invoke", "getPluginBy*", "getNextPluginFunction"])
p("C11", "Log messages reach every handler once and in order",
  "Every logMessage call is delivered exactly once, in call order, to each log handler attached at that time; messages logged while no handler is attached are kept (the first 500 of them) and delivered in order to the next handler attached, followed by one warning if some were dropped. removeLogHandler reports whether the handle was attached, stops delivery and runs the handler's free function exactly once, as freeing the core does for handlers still attached.",
  ["histories", "schedules"], "all sequences of logging, attaching and removing handlers, from any thread",
  "tests attach one handler and log one message",
  ["src/core/vslog.cpp", VC], [("stored messages", "messages logged without a handler", f"{VC} VSCore::logMessages"), ("messageHandlers", "attached handlers", VC)], [("logMessage/addLogHandler/removeLogHandler", VC)], ["log handler callbacks", "free callbacks"])
p("C12", "Format queries, identifiers and names agree with one validity rule",
  "queryVideoFormat, queryVideoFormatID and getVideoFormatByID accept exactly the format parameter combinations the documentation allows, agree with each other, are inverse to each other, and fill in bytes per sample and plane count from the parameters; queryAudioFormat likewise accepts exactly the allowed sample types, sizes and channel layouts. getVideoFormatName and getAudioFormatName give every valid format its documented name, a different one for different video formats, and fail for invalid ones.",
  ["inputs"], "all parameter combinations, including invalid ones",
  "tests look up a few presets",
  [VC], [("VSVideoFormat/VSAudioFormat", "format description", "include/VapourSynth4.h")], [("isValidVideoFormat/isValidAudioFormat", VC), ("query functions", VC)], ["queryVideoFormat", "queryVideoFormatID", "getVideoFormatByID", "queryAudioFormat", "get*FormatName"])
p("C13", "Video reordering filters return exactly the documented source frames",
  "Trim, Splice, Loop, Reverse, Interleave, SelectEvery, DuplicateFrames, DeleteFrames, FreezeFrames and their combinations produce clips whose length, frame rate and per-frame source follow the documented mapping for every output frame number, with content unchanged and durations and frame rate adjusted as documented; arguments outside the documented ranges are rejected with an error. Clips whose formats do not match are rejected unless mismatch is set, in which case the differing property is reported as variable.",
  ["inputs", "programs"], "all clip lengths, arguments and output frame numbers",
  "tests check a few lengths and indices; boundary combinations of several arguments are not sampled",
  [RF, SF], [("per-filter index map", "which source frame an output frame is", RF)], [("get frame functions", RF), ("argument validation", RF)], ["invoke results", "getVideoInfo", "frames of the result"])
p("C14", "Audio editing filters place every sample where documented",
  "AudioTrim, AudioSplice, AudioLoop, AudioReverse, ShuffleChannels, SplitChannels, AssumeSampleRate, BlankAudio and any combination of them produce clips whose sample count, format and sample at every position are the documented function of their inputs, independent of the 3072-sample frame boundaries; every frame has 3072 samples except a shorter last one. Arguments outside the clip are rejected with an error.",
  ["inputs", "programs"], "all clip lengths, offsets and combinations relative to the frame size",
  "the tests barely touch audio; errors sit at particular alignments of offsets and frame boundaries",
  [AF], [("splice points/offsets", "sample position arithmetic", AF)], [("frame assembly", f"{AF} audio*GetFrame")], ["invoke results", "getAudioInfo", "frames of the result"])
p("C15", "Geometry filters move every pixel where documented",
  "Crop (CropAbs/CropRel), AddBorders, FlipVertical, FlipHorizontal, Turn180, Transpose, StackVertical, StackHorizontal, ShufflePlanes, SplitPlanes, SeparateFields and DoubleWeave give, for every format, subsampling and valid argument set, output dimensions, format, length and pixels that are the documented rearrangement of their inputs (border pixels of the given color), with frame properties from the documented source and field properties adjusted as documented. Invalid arguments (not aligned to subsampling, empty or exceeding the frame, mismatched formats) are rejected with an error.",
  ["inputs"], "all formats, sizes, arguments and frame numbers",
  "tests compare a handful of shapes; misplaced rows or columns occur for particular subsamplings, offsets and plane combinations",
  [SF], [("crop/border/stack geometry", "offsets per plane", SF)], [("get frame functions", SF), ("argument validation", SF)], ["invoke results", "pixels and props of the result"])
p("C16", "Property filters change exactly the properties they name",
  "SetFrameProp, SetFrameProps, RemoveFrameProps, SetFieldBased, CopyFrameProps, ClipToProp, PropToClip, AssumeFPS, PlaneStats and ModifyFrame/FrameEval based on them change exactly the documented properties or frames of each output frame and leave every other property and all pixels of every input clip as they were. FrameEval returns, for output frame n, frame n of the clip its function returned for n, ModifyFrame the frame its function returned; results that do not match the declared format or a function that fails make that frame request fail with an error.",
  ["inputs", "histories", "programs"], "all property maps, filter arguments, glob patterns and callback behaviours",
  "tests check single properties on one frame; that nothing else changes, and callback failure paths, are not covered",
  [SF], [("frame properties", "map attached to a frame", VH)], [("get frame functions", SF)], ["getFramePropertiesRO of results", "frame request errors"])
p("C17", "Point and combination filters compute the documented value for every sample",
  "For integer formats, Expr, Lut, Lut2, Levels, Invert, InvertMask, Limiter, Binarize, BinarizeMask, Merge, MaskedMerge, PreMultiply, MakeDiff, MergeDiff, MakeFullDiff, MergeFullDiff, AverageFrames, Convolution, Minimum, Maximum, Median, Inflate, Deflate and BoxBlur give for every sample of every processed plane the documented integer function of the input samples, at every position including the frame edges and for every bit depth, and copy planes that are not processed. The result does not depend on frame width, alignment or the CPU features in use.",
  ["inputs", "configurations"], "all sample values, bit depths, plane selections, positions and widths",
  "tests sample a few values; errors at vector tails, edges, extreme values and rarely used depths escape them",
  ["src/core/exprfilter.cpp", "src/core/lutfilters.cpp", "src/core/mergefilters.cpp", "src/core/genericfilters.cpp", "src/core/averageframesfilter.cpp", "src/core/boxblurfilter.cpp"],
  [("per-plane process flags", "which planes are processed", "src/core/filtershared.h")], [("kernels", "src/core/kernel"), ("expression compiler", "src/core/expr")], ["pixels of the result"])
p("C18", "Vspipe writes exactly the requested frames in order",
  "vspipe writes the frames start..end of the selected output, each exactly once, in ascending order and complete, whatever order the frames finish in and however many requests are in flight, preceded by the correct header when one was requested; timecodes and JSON lines appear in the same order with the values of those frames. If a frame fails, what was written is a prefix of that sequence and the exit code is non-zero; on success it is zero.",
  ["schedules", "inputs", "fault_sequences"], "all scripts, ranges, request windows and completion orders",
  "there are no tests for vspipe; ordering faults need out-of-order completion",
  ["src/vspipe/vspipe.cpp"], [("reorderMap", "completed frames waiting for their turn", "src/vspipe/vspipe.cpp"), ("outputFrames/requestedFrames", "progress counters", "src/vspipe/vspipe.cpp")], [("frameDoneCallback", "src/vspipe/vspipe.cpp"), ("outputNode", "src/vspipe/vspipe.cpp")], ["stdout/file of vspipe", "timecodes file", "json file", "exit code"])
p("C19", "VSScript environments are independent and report errors faithfully",
  "Each VSScript handle evaluates scripts in its own environment: variables, outputs and core of one are never visible in or changed by another, and survive until its own freeScript. After each evaluation getError is null exactly when it succeeded, getExitCode reports the script's sys.exit code, getOutputNode/getOutputAlphaNode/getAltOutputMode/getAvailableOutputNodes return exactly what the script set, and getVariable/setVariable transfer values unchanged and report missing names.",
  ["histories"], "all interleavings of operations on several script handles",
  "there are no tests for the VSScript API",
  ["src/vsscript/vsscript.cpp", "src/cython/vapoursynth.pyx"], [("environment map", "script id to environment data", "src/cython/vapoursynth.pyx")], [("evaluate/get/set entry points", "src/cython/vapoursynth.pyx")], ["VSScript API"])
p("C20", "Python environments keep their cores and outputs apart",
  "Every core, node, function and output belongs to the environment that was current when it was created; outputs and cores of different environments never mix, switching environments (use) always restores the previous one, also on exceptions and across threads, and after an environment is destroyed its on_destroy callbacks have each run once and using its objects raises an error instead of touching freed memory. Only the holder of the registered policy can create, switch or destroy environments.",
  ["histories", "schedules"], "all sequences of creating, nesting, switching and destroying environments",
  "tests check a few fixed sequences",
  ["src/cython/vapoursynth.pyx"], [("EnvironmentData", "per environment state", "src/cython/vapoursynth.pyx")], [("policy handling", "src/cython/vapoursynth.pyx")], ["vapoursynth Python module"])
p("C21", "Python clip access returns the right frames in the right order",
  "clip.frames() yields every frame exactly once in ascending order for any prefetch and backlog, clip.output() writes exactly the bytes of those frames in order, get_frame/get_frame_async return frame n or raise the filter's error, and closing an iterator early leaves nothing running. Indexing and slicing of clips (including steps and negative numbers), and the operators + and *, select the frames Python sequence semantics prescribe; out-of-range indices raise IndexError.",
  ["schedules", "inputs"], "all clip lengths, slices, prefetch/backlog values and completion orders",
  "tests try few slices and rely on fast in-order filters",
  ["src/cython/vapoursynth.pyx"], [("frames() reorder state", "futures in flight", "src/cython/vapoursynth.pyx")], [("frames", "src/cython/vapoursynth.pyx"), ("__getitem__", "src/cython/vapoursynth.pyx")], ["VideoNode/AudioNode methods"])
p("C22", "Graph inspection reports the graph that was built",
  "For every node, getNodeName, getNodeFilterMode, getNumNodeDependencies and getNodeDependency return exactly what the filter was created with, whatever was built or freed afterwards. On a core created with graph inspection enabled, getNodeCreationFunctionName/PluginID/PluginNS/FunctionArguments at level k name the k-th enclosing invoke call with the arguments it was given; levels beyond that return null.",
  ["programs", "histories"], "all nestings of invoke calls and graphs",
  "tests do not inspect graphs beyond one node",
  [VC, VA], [("functionFrame", "stack of invoke calls", f"{VC} VSFunctionFrame")], [("recording on creation", f"{VC} VSNode ctor")], ["getNode* API functions"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
