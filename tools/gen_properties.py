#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
A = "src/algorithm/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe_at=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe_at: anchors["observe_at"] = observe_at
    anchors["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

ALLALG = [A+"type1_convert_to_fft.rs", A+"type1_naive.rs", A+"type2and3_butterflies.rs", A+"type2and3_convert_to_fft.rs",
          A+"type2and3_naive.rs", A+"type2and3_splitradix.rs", A+"type4_convert_to_fft.rs", A+"type4_convert_to_type3.rs",
          A+"type4_naive.rs", A+"type5_naive.rs", A+"type6and7_convert_to_fft.rs", A+"type6and7_naive.rs", A+"type8_naive.rs",
          "src/mdct/mdct_naive.rs", "src/mdct/mdct_via_dct4.rs"]

prop("C01", "Planned DCT and DST types 1-4 equal their unnormalised definition at any length",
 "For every length (at least 1; at least 2 for DCT-I) and every finite input whose results stay in range, an instance obtained from the planner for DCT or DST type 1, 2, 3 or 4, in f32 or f64, reports the requested length and overwrites the buffer with the unnormalised cosine/sine sum that defines that transform, up to floating-point rounding. Any of the four type-2/3 planning calls yields an instance computing all of DCT2, DCT3, DST2, DST3 of that length, and either type-4 planning call yields one computing both DCT4 and DST4.",
 ["inputs", "configurations"], "all lengths x all input vectors x {f32,f64} x transform kind x planning entry point x process entry point",
 "Planner tests stop at length 19 with one fixed positive random signal and a 1e-3 absolute tolerance, so split-radix above 16, most FFT conversions, long lengths, negative or wide-range values and f32/f64 precision are never looked at.",
 ["src/plan.rs", "src/lib.rs", "src/twiddles.rs"] + ALLALG[:9],
 [("algorithm choice by length", "src/plan.rs plan_new_dct1/dct2/dct4/dst1"), ("split radix recursion", A+"type2and3_splitradix.rs"), ("conversion to FFT", A+"type2and3_convert_to_fft.rs, "+A+"type1_convert_to_fft.rs, "+A+"type4_convert_to_fft.rs"), ("type 4 via two type 3", A+"type4_convert_to_type3.rs"), ("hard-coded butterflies", A+"type2and3_butterflies.rs"), ("twiddle factors", "src/twiddles.rs")],
 observe_at=["buffer after process_*", "len()"])
prop("C02", "Planned DCT and DST types 5-8 equal their unnormalised definition at any length",
 "For every length of at least 1 and every finite input whose results stay in range, an instance obtained from the planner for DCT or DST type 5, 6, 7 or 8, in f32 or f64, reports the requested length and overwrites the buffer with the unnormalised sum that defines that transform, up to floating-point rounding. An instance planned for type 6 or type 7 computes both of them.",
 ["inputs", "configurations"], "all lengths x all input vectors x {f32,f64} x transform kind",
 "Planner tests stop at length 19 (and start at 6 for some kinds); the FFT-based DST6/DST7 is only planned from length 45 on, so the planner tests never execute it.",
 ["src/plan.rs", "src/lib.rs"] + ALLALG[9:13],
 [("naive twiddle-table walk with wrap-around index", A+"type5_naive.rs, "+A+"type6and7_naive.rs, "+A+"type8_naive.rs"), ("DST6/7 via FFT of length 2n+1", A+"type6and7_convert_to_fft.rs"), ("threshold 45", "src/plan.rs plan_new_dst6")],
 observe_at=["buffer after process_*", "len()"])
prop("C03", "Every public algorithm object computes its transform, however it is composed",
 "Every publicly constructible algorithm object (naive, butterfly, split-radix, via-FFT, via-another-transform) computes, at every length its constructor accepts and for every finite input, the same unnormalised transform as the definition. This holds whichever valid inner transform or forward FFT objects it was built from, including nested combinations and implementations supplied by the user, with whatever inner scratch requirements those report.",
 ["inputs", "configurations", "programs"], "all constructor trees (algorithm x inner algorithm x ... x FFT implementation) x lengths x inputs x {f32,f64}",
 "Each algorithm's unit test uses one fixed kind of inner object (mostly naive, with small scratch) and lengths below 20 (100 for odd type 4); other compositions, larger lengths and inner objects with larger scratch needs are never run.",
 ALLALG + ["src/array_utils.rs"],
 [("scratch size arithmetic from inner objects", A+"type4_convert_to_type3.rs, "+A+"type2and3_splitradix.rs, src/mdct/mdct_via_dct4.rs"), ("trait-object composition", "src/lib.rs")],
 observe_at=["buffer after process_*"])
prop("C04", "MDCT and IMDCT equal their windowed definition; the IMDCT adds to its outputs",
 "For every even length n and every window of 2n finite values, the MDCT of two input halves equals the windowed MDCT sum over their concatenation, and the IMDCT adds the windowed inverse sum to whatever the two output halves already contain, up to rounding. This holds for planned, naive and DCT4-based instances in f32 and f64, for symmetric and asymmetric windows alike.",
 ["inputs", "configurations"], "all even lengths x windows (built-in or arbitrary) x inputs x prior output contents x algorithm x {f32,f64}",
 "Tests use three symmetric windows, lengths up to 104 in f32, never an asymmetric window, and check accumulation only onto all-ones buffers, comparing the fast version with the naive one.",
 ["src/mdct/mdct_naive.rs", "src/mdct/mdct_via_dct4.rs", "src/mdct/mod.rs", "src/plan.rs"],
 [("fold into DCT4 input", "src/mdct/mdct_via_dct4.rs process_mdct_with_scratch"), ("unfold and accumulate", "src/mdct/mdct_via_dct4.rs process_imdct_with_scratch"), ("direct sums", "src/mdct/mdct_naive.rs")],
 observe_at=["output slices"])
prop("C05", "Overlapped MDCT followed by IMDCT reconstructs the signal",
 "For any signal cut into 50%-overlapping blocks of any even length n, transforming each block with the MDCT and overlap-adding the IMDCT results with the same instance returns the original interior samples: exactly as is for the 'invertible' built-in windows, and after scaling by 2/n for mp3 and vorbis or 1/n for the all-ones window. The same holds, scaled by 2/n, for any user window that is symmetric and satisfies the Princen-Bradley condition, and in whatever order the blocks are processed.",
 ["inputs", "histories"], "all signals x block counts x block orders x even lengths x Princen-Bradley windows x algorithm x {f32,f64}",
 "The TDAC test runs five in-order segments of one fixed positive f32 signal at lengths up to 104 with built-in windows only.",
 ["src/mdct/mdct_via_dct4.rs", "src/mdct/mdct_naive.rs", "src/mdct/window_fn.rs", "src/plan.rs"],
 [("time-domain aliasing cancellation", "src/mdct/*.rs"), ("window normalisation", "src/mdct/window_fn.rs")],
 observe_at=["overlap-added output"])
prop("C06", "Every transform is undone by its inverse transform times the known scale",
 "Applying a planned transform and then its inverse kind (1 with 1, 2 with 3, 3 with 2, 4 with 4, 5 with 5, 6 with 7, 7 with 6, 8 with 8, for DCT and DST alike) at the same length and multiplying by the scale returns the original buffer, up to rounding. The scale is 2/(n-1) for DCT1, 2/(n+1) for DST1, 2/n for types 2-4, 2/(n-1/2) for DCT5/6/7 and DST8, and 2/(n+1/2) for DST5/6/7 and DCT8.",
 ["inputs", "histories"], "all lengths x inputs x {f32,f64} x 16 kinds",
 "The existing inverse tests only exercise the test suite's own reference functions below length 20, never the library's implementations.",
 ["src/plan.rs"] + ALLALG[:13],
 [("forward/inverse pairs share one instance", "src/lib.rs TransformType2And3, TransformType4, Dct6And7, Dst6And7")],
 observe_at=["buffer after two process_* calls"])
prop("C07", "Scratch contents, surplus scratch and entry point never influence a result",
 "For every algorithm object and every valid input, the result of a scratch-taking call depends only on the object and its data arguments: it is bit-for-bit the same whatever values (zeros, garbage, NaN, or leftovers of earlier calls of any transform) the scratch slice holds on entry, and however much longer than the reported requirement that slice is. The allocating convenience methods return that same result.",
 ["inputs", "histories"], "all algorithm objects x inputs x initial scratch contents x surplus scratch lengths x entry points",
 "Every existing test hands over freshly zeroed scratch of exactly the reported length, so a read of stale scratch or a dependence on its length is invisible.",
 ALLALG + ["src/common.rs", "src/lib.rs"],
 [("scratch validation and slicing", "src/common.rs validate_buffers!, validate_buffers_mdct!"), ("full initialisation of the FFT input buffer", A+"*_convert_to_fft.rs")],
 state=[("scratch", "caller-owned workspace reused between calls", "every process_*_with_scratch")],
 observe_at=["buffer after process_*_with_scratch"])
prop("C08", "Instances are stateless: no call history changes a later result",
 "A transform instance gives bit-for-bit the same output for the same input no matter which calls were made on it, on its clones, or on instances sharing internal data with it before: earlier inputs (including NaN and infinities), other transform kinds of the same object, MDCT versus IMDCT calls, and calls rejected with a panic leave no trace. Its reported length and scratch requirement never change.",
 ["histories", "inputs"], "all call sequences on shared instances x inputs",
 "Each unit test makes one or two calls on a fresh instance; no test repeats an input after other calls.",
 ALLALG + ["src/plan.rs"],
 [("&self methods and immutable twiddle tables", "all algorithm structs"), ("Arc-shared inner instances", "src/plan.rs")],
 observe_at=["buffers of repeated calls", "len()", "get_scratch_len()"])
prop("C09", "One instance may be used from many threads at once with sequential results",
 "When several threads use the same shared instance, or instances sharing inner data, at the same time with their own buffers, each call produces bit-for-bit what it would have produced alone, under every interleaving.",
 ["schedules", "inputs"], "all interleavings of concurrent process_* calls on shared instances",
 "The existing test only checks at compile time that the trait objects are Send and Sync; no test runs two calls concurrently.",
 ALLALG + ["src/lib.rs", "src/plan.rs"],
 [("Sync + Send supertraits with no interior mutability", "src/lib.rs")],
 observe_at=["buffers of concurrent calls"])
prop("C10", "What a planner returns depends only on the request, not on earlier requests",
 "Whatever sequence of planning requests (including rejected ones) a planner has served, each returned instance computes exactly the requested transform kind, length and, for the MDCT, the window passed in that very request. Instances stay fully usable after the planner and all other instances are dropped.",
 ["histories", "configurations"], "all sequences of planning requests over kinds, lengths and windows, with drops and rejected requests interleaved",
 "Every existing planner test uses a new planner for a single request.",
 ["src/plan.rs"],
 [("per-kind instance caches keyed by length", "src/plan.rs"), ("recursive planning through the same caches", "src/plan.rs plan_new_dct2, plan_new_dct4, plan_new_mdct")],
 state=[("dct*_cache, dst*_cache, mdct_cache, fft_planner", "instances handed out so far", "src/plan.rs DctPlanner")],
 observe_at=["returned Arc instances"])
prop("C11", "Re-planning the same request re-uses data and planners share nothing",
 "Repeating a planning request on the same planner returns an instance that re-uses the existing internal data, so it allocates no memory that grows with the length (beyond the window the caller's own function builds). Requests that share a sub-transform (a type-4 or MDCT plan whose inner transform was already planned, a larger power of two) re-use it, and instances from different planners never share data.",
 ["histories", "configurations"], "all lengths x kinds x earlier planning histories",
 "No test plans the same request twice or measures memory.",
 ["src/plan.rs"],
 [("instance caches", "src/plan.rs contains_key/insert per kind"), ("shared fft_planner", "src/plan.rs")],
 observe_at=["heap bytes allocated and retained by plan_* calls", "Arc identity"])
prop("C12", "Wrong-sized arguments are rejected by a panic with nothing outside them touched",
 "Every process call, on every algorithm object, whose data slices do not have exactly the instance's length, or whose scratch slice is shorter than the reported requirement, panics instead of returning. Such a call never writes outside the slices it was given, never crashes the process, and leaves the instance fully usable.",
 ["inputs", "configurations"], "all algorithm objects x wrong buffer lengths (shorter, longer, empty) x wrong scratch lengths x each argument position",
 "No test passes a wrong-sized slice; the unsafe unchecked indexing behind these validations makes a missing check silent memory corruption.",
 ["src/common.rs"] + ALLALG,
 [("validate_buffer!, validate_buffers!, validate_buffers_mdct!", "src/common.rs"), ("unchecked indexing guarded by them", A+"type2and3_butterflies.rs, "+A+"type2and3_splitradix.rs")],
 observe_at=["panic or return", "memory around the slices"])
prop("C13", "Correctly sized calls touch only the slices they were given",
 "Every correctly sized process call, on every algorithm object and at every length, slice alignment and surplus scratch, completes without panicking and reads and writes only the memory of the slices passed in. The MDCT entry points leave nothing behind beyond their output and scratch slices, and the size-specific unchecked entry points touch only their first n elements.",
 ["inputs", "configurations"], "all algorithm objects x lengths x alignments x scratch sizes x inputs",
 "An out-of-bounds read or write through unchecked indexing or the scratch reinterpretation usually does not change a test's small outputs; nothing in the suite runs with guard zones or a sanitizer.",
 [A+"type2and3_butterflies.rs", A+"type2and3_splitradix.rs", "src/array_utils.rs", "src/common.rs"] + ALLALG[:1],
 [("get_unchecked/get_unchecked_mut", A+"type2and3_butterflies.rs, "+A+"type2and3_splitradix.rs"), ("reinterpreting scratch as complex", "src/array_utils.rs into_complex_mut")],
 observe_at=["guard zones around every slice", "sanitizer and debug-assertion reports"])
prop("C14", "Impossible instances are refused at construction",
 "Requests for instances that cannot compute a correct transform panic at construction instead of returning an object: DCT1 of length 1, odd MDCT lengths, windows of the wrong size, even-length odd-only type-4 conversion, FFTs of the wrong parity or direction, and split-radix with a non-power-of-two or mismatched pair. Every request with valid arguments succeeds and reports the length the documentation states for it.",
 ["inputs", "configurations"], "all constructor and planner arguments, valid and invalid",
 "No test passes an invalid constructor argument, so a dropped or wrong precondition check goes unnoticed.",
 ALLALG + ["src/plan.rs"],
 [("assert! preconditions in new()", "all constructors")],
 observe_at=["panic or returned object", "len()"])
prop("C15", "Scratch-taking calls never allocate; reported scratch suffices and is O(n)",
 "A scratch-taking process call on any algorithm object given exactly the reported amount of scratch succeeds and performs no heap allocation. The reported amount grows at most linearly with the length for every planned instance.",
 ["inputs", "configurations"], "all algorithm objects x lengths x {f32,f64}",
 "No test counts allocations or bounds scratch sizes.",
 ALLALG + ["src/lib.rs"],
 [("caller-provided scratch", "src/lib.rs process_*_with_scratch"), ("scratch_len computed at construction", "all constructors")],
 observe_at=["global allocator", "get_scratch_len()"])
prop("C16", "Planned types 1-4, DST6/7 and the MDCT cost O(n log n) at every length",
 "For every length, prime and highly composite alike, processing one buffer with a planned DCT or DST of type 1-4, a planned DST6 or DST7, or a planned MDCT/IMDCT performs a number of arithmetic operations bounded by a constant times n log n.",
 ["inputs", "configurations"], "all lengths x kinds",
 "The suite checks values only, at lengths where quadratic and n log n cost are indistinguishable.",
 ["src/plan.rs", A+"type2and3_splitradix.rs", A+"type4_convert_to_type3.rs"],
 [("planner thresholds and recursion", "src/plan.rs")],
 observe_at=["operation counts of a counting numeric type"])
prop("C17", "Every transform is linear in its input over the whole dynamic range",
 "Every planned transform is a linear map: scaling the input, negating it, adding two inputs, or shifting magnitudes anywhere within the representable range without overflow or underflow does the same to the output, up to rounding relative to the input's norm, and an all-zero input gives an all-zero output. The MDCT, and the amount the IMDCT adds, are linear in the same sense.",
 ["inputs"], "all pairs of inputs and scale factors x lengths x kinds x {f32,f64}",
 "Tests use one positive signal in [0,10); nothing varies sign, magnitude or combines inputs.",
 ALLALG + ["src/plan.rs"],
 [("data-independent arithmetic", "all process_* bodies")],
 observe_at=["buffer after process_*"])
prop("C18", "Built-in windows have their documented shape and satisfy Princen-Bradley",
 "For every size the built-in window functions return exactly that many finite values following their formulas (mp3 sine window, Vorbis power-sine window, all ones, and the invertible variants scaled by sqrt(4/size), sqrt(4/size) and sqrt(2/size)), in f32 and f64 to within rounding. At even sizes each is symmetric and its squared halves sum to the same constant at every index.",
 ["inputs", "configurations"], "all window sizes x 6 windows x {f32,f64}",
 "The one test checks mp3 and vorbis in f32 at even sizes below 40 with a 1e-3 tolerance, and no invertible window.",
 ["src/mdct/window_fn.rs"],
 [("window formulas", "src/mdct/window_fn.rs")],
 observe_at=["returned Vec"])
prop("C19", "Transforms work for any numeric type meeting the bounds",
 "Planned transforms, MDCTs and built-in windows work for every user-defined number type that meets the trait bounds, not only f32 and f64. Results follow the type's own arithmetic: a type carrying derivatives or exact side information through +, -, * gets it transformed by the same linear map.",
 ["programs", "inputs"], "user numeric types x lengths x kinds x inputs",
 "All tests instantiate f32 or f64 only.",
 ["src/common.rs", "src/lib.rs", "src/twiddles.rs"] + ALLALG,
 [("blanket DctNum impl", "src/common.rs"), ("from_f64 constants", "src/twiddles.rs, src/common.rs")],
 observe_at=["buffer after process_*"])
prop("C20", "Rounding error stays at machine precision for very long transforms",
 "For planned DCT and DST types 1-4, DST6/7 and MDCTs of any length up to the millions, the root-mean-square output error relative to the root-mean-square output stays within a small constant times machine epsilon times log2 of the length, in f32 and in f64.",
 ["inputs", "configurations"], "lengths up to 2^20 and beyond (powers of two, smooth, prime) x inputs x {f32,f64}",
 "Tests stop at length 104 with an absolute tolerance of 1e-3, thousands of times above rounding error.",
 ["src/twiddles.rs", "src/plan.rs"] + ALLALG[:9],
 [("twiddles computed in f64 then rounded", "src/twiddles.rs"), ("logarithmic-depth algorithms", "src/plan.rs")],
 observe_at=["buffer after process_*"])
prop("C21", "Planning is quasi-linear, memory is O(n), and dropping releases everything",
 "Building a planned instance of length n takes O(n log n) work and O(n) memory, while planning and afterwards, at every length and whatever the planner has planned before. Once the planner and every instance are dropped all memory has been returned, whatever was planned, rejected or processed in between, and an instance that outlives its planner keeps alive only what it needs itself. Repeating requests, for the MDCT also with new windows, does not make a living planner grow.",
 ["inputs", "histories", "configurations"], "all lengths x kinds x planning, call and drop histories",
 "No test measures planning work or memory, and none drops a planner and looks at what is left.",
 ["src/plan.rs", "src/twiddles.rs"] + ALLALG,
 [("per-length caches of Arcs in DctPlanner", "src/plan.rs"), ("twiddle tables linear in the length", "src/twiddles.rs"), ("MDCT instances not cached, windows owned by the instance", "src/plan.rs plan_mdct")],
 observe_at=["global allocator", "operation counts of a counting numeric type", "thread processor time"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
print(len(P))
