#!/usr/bin/env python3
"""Writes properties.jsonl (and checks it against MANIFEST.json's ids by eye: one line per property)."""
import json, os
R = "lib/sia/rust/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [f if f.startswith("src/") or f.startswith("lib/") else R + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "What is embedded in a picture is read back exactly",
     "Data that a picture accepts for embedding is returned byte for byte by extraction with the same depth and number of transform levels: for every shape (square, rectangular, strips) whose sides are multiples of 2^levels, every memory order of the pixel matrix, every payload from empty to the largest that fits, and one to four levels. It is required when no pixel leaves 0..255 through the embedding and depth is at least 2.2*2^levels. A second embedding into the same picture replaces the first completely.",
     ["inputs", "histories"], "all pictures, shapes, levels, depths above the readable minimum, payloads that fit, and repeated embeddings",
     "The existing tests embed one short string into two square pictures; the shapes, the domain-size classes (which select the code), the payload lengths at the borders and re-embedding are never driven.",
     ["embedding/src/lib.rs", "embedding/src/haar/mod.rs", "embedding/src/io/mod.rs", "embedding/src/io/steganography.rs", "embedding/src/io/data.rs", "encoding/src/lib.rs"],
     [("embed / extract", R + "embedding/src/lib.rs"), ("bit writer and reader", R + "embedding/src/io/steganography.rs"), ("length headers and codewords", R + "encoding/src/lib.rs")],
     ["return value of extract(embed(picture, payload))"])

prop("C02", "Data is embedded exactly when it fits the picture's capacity",
     "A picture with at least sixteen bytes of carriers (one bit per 2^levels-square block, rounded down to bytes) accepts a payload exactly when the payload with its two-byte and the code's two-byte length headers, cut into the code's data words, coded, is no longer than the carriers and no length exceeds 65535; otherwise it refuses. Fewer than nine bytes of carriers are refused for embedding and for extraction. Nothing is ever accepted and then cut short: accepted data is readable.",
     ["inputs"], "all domain sizes and payload lengths, in particular the exact border at each size and around the 16-bit headers",
     "Capacity borders exist for every domain size; the tests contain one oversized write into one matrix.",
     ["embedding/src/lib.rs", "embedding/src/io/steganography.rs", "embedding/src/io/data.rs", "encoding/src/lib.rs"],
     [("capacity refusal", R + "embedding/src/io/steganography.rs"), ("minimum capacity refusal", R + "embedding/src/lib.rs"), ("length header limits", R + "encoding/src/lib.rs")],
     ["return or refusal (panic) of embed and extract"])

prop("C03", "An embedded message survives noise and isolated carrier damage",
     "A message embedded with headroom is still read back exactly after any change of pixels by at most a, as long as (a+0.5)*2^levels is below depth/4. It also survives, in domains that use an error correcting code, the inversion of any one or two carriers in every codeword.",
     ["inputs", "fault_sequences"], "all pictures, payloads, noise patterns below the tolerance, and choices of up to two destroyed carriers per codeword",
     "The tests read only undisturbed pictures; noise tolerance is the reason the depth and the code exist.",
     ["embedding/src/io/steganography.rs", "embedding/src/lib.rs", "encoding/src/lib.rs"],
     [("lattice with quarter-depth margins", R + "embedding/src/io/steganography.rs"), ("codewords", R + "encoding/src/lib.rs")],
     ["extract of the disturbed picture"])

prop("C04", "Embedding changes the picture only as much and where it must",
     "Embedding keeps the picture's dimensions and moves no pixel by more than 0.75*depth/2^levels+0.5. Blocks whose carrier is not used by the coded message (carriers are used in row order) keep every pixel. Within a used block all pixels move by the same amount, except where rounding of an exact half or the end of the 0..255 range intervenes.",
     ["inputs"], "all pictures (dark and bright ones included), depths, levels and payloads",
     "Invisibility is checked by no test: they only look at the data read back.",
     ["embedding/src/lib.rs", "embedding/src/haar/mod.rs", "embedding/src/io/steganography.rs"],
     [("nearest lattice point", R + "embedding/src/io/steganography.rs"), ("inverse transform and rounding", R + "embedding/src/lib.rs")],
     ["pixels of embed's result against the source"])

prop("C05", "The wavelet transform is an orthonormal, exactly invertible Haar transform",
     "For every real matrix whose sides are multiples of 2^levels, forward then inverse and inverse then forward return the matrix up to rounding, the sum of squares is preserved, and the transform is linear. The low band holds each 2^levels-square block's sum divided by 2^levels, in place, whatever the memory order of the matrix, and the detail bands hold the corresponding differences.",
     ["inputs"], "all matrices, shapes, magnitudes, memory orders and level counts",
     "The tests compare one fixed matrix with stored numbers.",
     ["embedding/src/haar/mod.rs"], [("forward and inverse passes", R + "embedding/src/haar/mod.rs")],
     ["matrix returned by the transform"], hook="embedding::monitor::dwt_2d under cfg(sia_monitor)")

prop("C06", "The error correcting frame returns the message and corrects one or two errors",
     "Encoding a message for a domain size and decoding it, with or without arbitrary bytes following the coded message in the domain, returns the message exactly, and a message longer than 65535 bytes is refused. Any one or two flipped bits in every codeword are corrected, and heavier damage is decoded no worse than twenty iterations of the code's bit-flipping decoder do. Decoding arbitrary received bytes of a domain returns without failing.",
     ["inputs", "fault_sequences"], "all message lengths, domain sizes, error patterns and received garbage",
     "The tests decode clean codewords of one length per code and one flipped bit.",
     ["encoding/src/lib.rs"], [("choice of code, framing, decoder", R + "encoding/src/lib.rs")],
     ["return value of decode"])

prop("C07", "Quantized features survive any noise smaller than one step",
     "Restoring features with the perturbation bits recorded at quantization gives exactly the quantized values of the original features whenever every feature moved by less than one quantization step, in either direction, for positive, negative, zero and boundary values and every step.",
     ["inputs"], "all feature vectors, steps and disturbances below one step",
     "The tests disturb a handful of numbers; the eight cell cases times sign times boundary combinations are the point of the scheme.",
     ["three-bit-quantization/src/lib.rs"], [("three bits per feature and their use", R + "three-bit-quantization/src/lib.rs")],
     ["restored integers against quantized integers"])

prop("C08", "Quantization follows its definition, and restoring stays local",
     "A feature's quantized value is the floor of feature over step, and its three recorded bits are the quantized value minus one modulo four, high bit first, and whether the feature lies in the upper half of its cell. Restoring moves a received feature, for any three bits, by at most one cell: into the neighbouring cell with the recorded residue, unless the recorded half of that cell and the feature's own half are both the far ones; otherwise it stays in its own cell. So a feature that moved by more than one and a half steps is never restored to its original value.",
     ["inputs"], "all features, received features, bit triples and steps",
     "The upper bound on what is accepted is never tested: a restoration that always succeeds would pass every existing test.",
     ["three-bit-quantization/src/lib.rs"], [("quantization and restoration", R + "three-bit-quantization/src/lib.rs")],
     ["bits and integers returned"])

prop("C09", "Watermark records and payload headers are written and read back faithfully",
     "A watermark record (perturbation bits, signature, text; each up to 255 bits or bytes) is written as the three lengths, the bits packed least significant first, the signature and the UTF-8 text, and reading it back, even with arbitrary bytes after it, gives the same record; longer parts are refused. Bit vectors of any length and storage offset keep their bits through packing. A payload is preceded by its little-endian 16-bit length, which reading strips together with anything that follows the payload.",
     ["inputs"], "all records, bit vectors (any length, storage offset, stale padding) and payloads",
     "The tests write and read one record and one payload.",
     ["watermarking/src/watermark.rs", "three-bit-quantization/src/lib.rs", "embedding/src/io/data.rs"],
     [("record layout", R + "watermarking/src/watermark.rs"), ("bit packing", R + "three-bit-quantization/src/lib.rs"), ("payload header", R + "embedding/src/io/data.rs")],
     ["serialized bytes and the values read back"], hook="watermarking::monitor and embedding::monitor under cfg(sia_monitor)")

prop("C10", "Signatures are standard Ed25519 and reject every alteration",
     "Signing with a hex key pair gives the standard Ed25519 signature of the data, and verification accepts it. Verification rejects altered data, any altered, truncated, extended or arithmetically shifted signature and any other key, and answers true or false for every byte string offered as a signature. Generated key pairs are valid, distinct, and sign and verify.",
     ["inputs"], "all data, keys, signatures and manipulations",
     "The tests sign one message and verify it once.",
     ["signature/src/lib.rs", "signature/src/keypair.rs", "utils/src/format.rs"],
     [("sign / verify", R + "signature/src/lib.rs"), ("key pair generation", R + "signature/src/keypair.rs")],
     ["signature bytes and verdicts"], hook="signature::monitor::generate under cfg(sia_monitor)")

prop("C11", "Features are the Zernike moments of the picture",
     "The polynomial values on a grid, the moment of each admissible order and index and the feature vector (magnitudes in order of the moments, as many as asked) agree with the mathematical definition on the unit disc around the centre, up to rounding, for grids of every size and pictures of every shape, including rectangles and single rows or columns.",
     ["inputs"], "all pictures and shapes, orders and indices, feature counts",
     "The tests compare a few stored numbers of one square picture.",
     ["zernike/src/lib.rs", "zernike/src/calc.rs", "moments/src/lib.rs", "feature/src/lib.rs", "image-features/src/lib.rs", "utils/src/math.rs"],
     [("radial polynomials", R + "zernike/src"), ("moment sum", R + "moments/src/lib.rs"), ("feature vector", R + "image-features/src/lib.rs")],
     ["returned polynomials, moments and features"])

prop("C12", "Features do not depend on orientation and scale with brightness",
     "Turning a picture by quarter turns or reflecting it leaves its features unchanged up to rounding; moments are linear in the pixels, and doubling or inverting the picture acts accordingly. Flat pictures and point-symmetric pictures have the vanishing moments that symmetry demands, and changed content changes the features.",
     ["inputs"], "all pictures and shapes, turns, reflections, sums",
     "Invariance relates several executions to each other; no test does.",
     ["zernike/src/lib.rs", "moments/src/lib.rs", "image-features/src/lib.rs"],
     [("centred unit disc", R + "zernike/src"), ("magnitudes", R + "image-features/src")],
     ["feature vectors of transformed pictures"])

prop("C13", "Watermarking a picture keeps its form and marks each channel on its own",
     "Watermarking a picture of any pixel type (grey or colour, 8-bit, 16-bit or float, with or without transparency) returns a picture of the same dimensions and kind of channels, leaves the transparency and the input untouched, and puts into every colour or grey channel exactly the watermark that channel gets on its own. Channels do not influence each other, rectangles included. A picture too small for its watermark is refused, never returned as if it were marked.",
     ["inputs", "configurations"], "all pixel types, shapes, contents and channel permutations",
     "The tests mark one square colour and one grey picture and only save the result.",
     ["watermarking/src/lib.rs", "watermarking/src/process.rs"],
     [("splitting and joining of channels", R + "watermarking/src/lib.rs"), ("per-channel process", R + "watermarking/src/process.rs")],
     ["pixels, colour type and dimensions of the returned picture"], hook="watermarking::monitor::watermark_channel for the lone-channel comparison")

prop("C14", "A freshly watermarked channel authenticates",
     "A channel watermarked with headroom is judged authentic with the same parameters whenever each of its features (of the histogram-equalized channel) moved by less than one quantization step through the embedding. It stays authentic under later noise too small to flip a carrier or to move a feature by a step.",
     ["inputs"], "all channels, shapes, levels, depths, steps and feature counts",
     "The tests authenticate one picture with one parameter set.",
     ["watermarking/src/process.rs", "watermarking/src/watermark.rs"],
     [("watermark_channel / authenticate_channel", R + "watermarking/src/process.rs")],
     ["verdict of authentication"], hook="watermarking::monitor::{watermark_channel, authenticate_channel} under cfg(sia_monitor)")

prop("C15", "Tampered content and forged watermarks are rejected",
     "A channel is authentic only if the record it carries holds a valid signature, under the built-in key, of exactly the quantized features that the picture's own content restores with the record's perturbation bits. Repainted or rearranged content with intact carriers, a watermark copied from another picture, a record signed by another key or over other features, and altered perturbation bits or signatures are all rejected; so is authentication with parameters that restore other features.",
     ["inputs", "fault_sequences"], "all manipulations of marked pictures, forged records and parameters",
     "The tests contain only authentic pictures: an authentication that always says yes passes them all.",
     ["watermarking/src/process.rs", "signature/src/lib.rs", "three-bit-quantization/src/lib.rs"],
     [("comparison of restored features with the signature", R + "watermarking/src/process.rs"), ("verification", R + "signature/src/lib.rs")],
     ["verdict of authentication against an independent verifier's"], hook="watermarking::monitor under cfg(sia_monitor)")

prop("C16", "Authentication gives a verdict for every picture",
     "For every picture whose sides are multiples of 2^levels and that holds at least nine bytes of carriers, authentication returns true or false and does not fail: for unmarked pictures, damaged lengths, truncated or malformed records, texts that are not UTF-8, other feature counts, and cut, turned, inverted or blanked marked pictures. A picture that carries no well-formed record is not authentic.",
     ["inputs", "fault_sequences"], "all pictures, in particular those carrying malformed data",
     "The tests authenticate well-formed pictures only.",
     ["watermarking/src/process.rs", "watermarking/src/watermark.rs", "embedding/src/io/data.rs", "encoding/src/lib.rs"],
     [("reading of untrusted records", R + "watermarking/src/watermark.rs"), ("reading of damaged lengths", R + "encoding/src/lib.rs")],
     ["return or failure of authentication"], hook="watermarking::monitor::authenticate_channel under cfg(sia_monitor)")

prop("C17", "Results depend only on the inputs, not on history, threads or environment",
     "Every operation (embedding, extraction, watermarking, authentication, features, quantization, coding, signing) returns the same result for the same input in any process, after any history of other operations, refused ones included, and while other threads run operations on the same or other inputs; inputs are not changed. Key generation is the only exception.",
     ["histories", "schedules"], "all histories and interleavings of operations on one or several threads",
     "The tests run each operation once, in isolation.",
     ["watermarking/src/lib.rs", "embedding/src/lib.rs", "encoding/src/lib.rs", "image-features/src/lib.rs", "signature/src/lib.rs", "three-bit-quantization/src/lib.rs"],
     [("pure functions without shared state", R + "*/src/lib.rs")],
     ["event log of calls and results"])

prop("C18", "The command line marks each given file and nothing else",
     "For every input file the command line writes one file named stem-suffix.extension in the current folder, or in the output folder if one is given (created if missing, parents included), replacing what was there, in the input's format, holding the watermarked picture at depth 100, step 1 and 11 features; inputs and all other files stay as they are. Without a suffix nothing is written. Unreadable inputs, an output path that is a file, outputs that cannot be written, unknown options and missing arguments end with an error status or, as asking for help does, a usage text naming the options, and write no output for them.",
     ["inputs", "configurations"], "all file types, names, suffixes, folders, option orders and failing invocations",
     "No test runs the program.",
     ["cli/src/main.rs", "watermarking/src/lib.rs"],
     [("argument handling, naming, saving", R + "cli/src/main.rs")],
     ["files in the scratch folder, exit status"])

prop("C19", "The web binding hands the page exactly the library's watermarked picture",
     "For the bytes of any supported picture file, depth and step, the web binding exposes the name of the format and the source and the watermarked picture with right dimensions and RGBA pixels (colours under transparency included), the latter equal to the library's result with 11 features. A file that is no picture or that the library refuses never yields a result. What the page sets on a returned picture or process is what it gets back, and nothing else changes.",
     ["inputs"], "all file types, pictures, depths and steps handed over by the page",
     "The only test of the binding needs a browser-like host and one stored picture.",
     ["web/src/lib.rs", "web/src/image_model.rs", "web/src/watermarking_process.rs"],
     [("get_watermarking_process and accessors", R + "web/src/lib.rs")],
     ["values the binding returns to the page"])

prop("C20", "The page hands pictures to and from the library without altering them",
     "The page's helpers turn every picture it loads into the bytes given to the library and every picture model the library returns into canvas pixels without altering size, order or values, for every size and channel count. The library is initialized before it is used and asked with depth 500 and step 1, and whatever order files finish loading in, the page shows the file selected last; closing the file dialog without a choice changes nothing.",
     ["inputs", "schedules"], "all files and picture models, and all orders in which selected files finish loading",
     "The front end has one smoke test.",
     ["src/Content/utils.ts", "src/Content/Content.tsx"],
     [("conversion helpers", "src/Content/utils.ts")],
     ["values passed between page and library"])

prop("C21", "Hex and integer codecs are exact inverses and report malformed text",
     "Bytes written as hex are two lower-case digits per byte in order and read back identically, in either letter case. Text of odd length or with any character that is not a hex digit is reported as an error, never accepted and never a crash. Lists of 16-, 32- and 64-bit integers are written little-endian, in order, and read back identically.",
     ["inputs"], "all byte strings, texts (multi-byte characters included) and integer lists",
     "The tests convert one value each.",
     ["utils/src/format.rs", "utils/src/bytes.rs"],
     [("hex", R + "utils/src/format.rs"), ("integer bytes", R + "utils/src/bytes.rs")],
     ["returned texts, bytes and errors"])

prop("C22", "Pictures already marked stay readable: the on-picture format is fixed",
     "The format of marked pictures does not change: carrier k is the k-th low-band coefficient in row order, bits go least significant first, a one lies a quarter depth above and a zero a quarter below the nearest multiple of depth, and the data is the framed, coded record with its features, signature and text. Pictures written by an independent encoder of this format are read, stored marked pictures keep authenticating, and marking their sources reproduces them.",
     ["inputs", "histories"], "all pictures written by earlier versions and all pictures this version writes",
     "The tests write and read with the same code, so a change of both sides passes them and orphans every picture already marked.",
     ["embedding/src/io/steganography.rs", "embedding/src/lib.rs", "encoding/src/lib.rs", "watermarking/src/process.rs", "watermarking/src/watermark.rs"],
     [("writer and reader", R + "embedding/src/io/steganography.rs"), ("framing and code by domain size", R + "encoding/src/lib.rs"), ("record and built-in keys", R + "watermarking/src/process.rs")],
     ["pixels written, payload read, verdict on stored pictures"], hook="watermarking::monitor for channels")

prop("C23", "Factorials are exact and the pseudo-random generator follows its recurrence",
     "The factorial of every integer from 0 to 170 is the exact product up to floating-point rounding, and of a fraction the gamma function's value to within a millionth; whole numbers above 170 and below zero give infinity, and every argument returns. The pseudo-random generator yields, for every seed, the same sequence whenever restarted, each value being the cube of seed-counter times 15485863, modulo and divided by 2038074743, scaled into the requested range and never outside it.",
     ["inputs", "histories"], "all arguments and seeds, and restarts at any point",
     "The tests compare a few values.",
     ["utils/src/math.rs", "utils/src/pseudo_random.rs"],
     [("factorial", R + "utils/src/math.rs"), ("generator", R + "utils/src/pseudo_random.rs")],
     ["returned numbers"])

prop("C24", "Untrusted pictures and data never corrupt memory",
     "No picture, payload, received domain, record, signature or text makes the library read or write outside its objects, use uninitialized or freed memory, or run unbounded recursion; bad input ends in a refusal or a verdict.",
     ["inputs", "schedules"], "all inputs to the decoding and authentication paths, on one or several threads",
     "Memory errors in the native code underneath (and in any unsafe code added for speed) are invisible to tests that only compare results.",
     ["encoding/src/lib.rs", "embedding/src/io/steganography.rs", "watermarking/src/process.rs", "three-bit-quantization/src/lib.rs", "utils/src/bytes.rs"],
     [("bounds checks, no unsafe code of its own", R + "*/src/*.rs")],
     ["sanitizer and interpreter reports"])

prop("C25", "Carriers are written and read exactly on the lattice",
     "Writing bytes into a band of coefficients places the k-th bit, least significant first, into the k-th coefficient in row order, at the nearest multiple of depth plus or minus a quarter depth, and changes no other coefficient; reading returns those bytes, also after every coefficient moved by less than a quarter depth. This holds for bands of every shape and for bands that are windows of a larger matrix, and more bytes than the band has room for are refused.",
     ["inputs"], "all band shapes, windows, depths, coefficients and bytes",
     "The tests write a text into one square matrix.",
     ["embedding/src/io/steganography.rs", "embedding/src/io/mod.rs"],
     [("writer and reader", R + "embedding/src/io/steganography.rs")],
     ["coefficients after writing, bytes read"], hook="embedding::monitor::{read, write} under cfg(sia_monitor)")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
