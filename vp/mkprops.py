#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
A = "include/bitlib/bit-algorithms/"
I = "include/bitlib/bit-iterator/"
V = "include/bitlib/bit-containers/bit_vector.hpp"
D = A + "bit_algorithm_details.hpp"
out = []


def p(id, title, statement, qtext, why, files, mech, over=("inputs",), state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    out.append(d)


SAMP = "The tests draw random lengths and offsets whose ranges end at the container's end; a fault at one alignment, one length residue or one interior end is rarely drawn, and the bits outside the range are not compared."
ALLR = "every word type, every first/last/destination bit position, every range length and all contents"
p("C01", "Copying and moving a bit range transfers every bit in order",
  "Copying or moving a range of bits to a non-overlapping destination makes the i-th destination bit equal the i-th source bit for every i, whatever the bit alignment of both ranges. The source is unchanged and the returned iterator is one past the last bit written.",
  ALLR, SAMP, [A + "copy.hpp", A + "move.hpp", D], [("word-wise copy with re-alignment", A + "copy.hpp"), ("move", A + "move.hpp"), ("unaligned word read", D)])
p("C02", "Backward copy transfers every bit in order and ends at the given end",
  "Copying a range backward makes the range that ends at the given destination end equal to the source range bit for bit, for every alignment of both. The returned iterator denotes the first bit written and the source is unchanged.",
  ALLR, SAMP, [A + "copy_backward.hpp", D], [("backward word-wise copy", A + "copy_backward.hpp")])
p("C03", "Overlapping and in-place ranges behave as the standard library promises",
  "Copy and move to a destination that starts before the source, backward copy to a destination that ends after it, and transforming a range onto itself give the result computed from the source bits as they were before the call.",
  "every displacement of source and destination inside one array, every alignment, length and content", "No test runs an algorithm on overlapping ranges.",
  [A + "copy.hpp", A + "move.hpp", A + "copy_backward.hpp", A + "transform.hpp"], [("read-before-write order of the word loops", A + "copy.hpp"), ("backward order", A + "copy_backward.hpp"), ("in-place transform", A + "transform.hpp")])
p("C04", "Fill sets every bit of the range",
  "After filling a range with a value every bit of the range has that value and every other bit of the underlying words is unchanged.",
  ALLR, SAMP, [A + "fill.hpp"], [("edge-word masks and word fill", A + "fill.hpp")])
p("C05", "Equality compares exactly the bits of the two ranges",
  "Comparing two bit ranges returns true exactly when every pair of corresponding bits is equal; bits of the underlying words outside the ranges never influence the answer and nothing is modified.",
  ALLR, "Tests compare ranges that are equal by construction or differ at random, so a comparison that skips one alignment's last bits or includes bits past the end is rarely exposed.", [A + "equal.hpp", D], [("word-wise comparison with edge masks", A + "equal.hpp")])
p("C06", "Find returns the first position holding the value",
  "Searching a range for a bit value returns the first position in the range whose bit has that value, or the end of the range when there is none, whatever the bits around the range contain.",
  ALLR, "Random contents almost always hold a match in the first word; long runs, matches in the last partial word and matches just past the end are not sampled.", [A + "find.hpp"], [("edge words, word scan and vector scan", A + "find.hpp")])
p("C07", "Count returns the number of bits with the value",
  "Counting a value over a range returns the number of positions in that range holding it, for both values and for every length including zero, regardless of the bits around the range.",
  ALLR, SAMP, [A + "count.hpp", A + "libpopcnt.h"], [("edge masks and block population count", A + "count.hpp"), ("population count of a memory block", A + "libpopcnt.h")])
p("C08", "Transform applies the operation to every bit of the range",
  "Transforming one or two ranges with a bitwise word operation makes every destination bit equal to the operation applied to the corresponding source bits, for any alignment of sources and destination. Sources are unchanged and the returned iterator is one past the last bit written.",
  ALLR + ", every bitwise operation", SAMP, [A + "transform.hpp"], [("unary and binary word-wise transform", A + "transform.hpp")])
p("C09", "Left shift moves the surviving bits to the front",
  "Shifting a range left by n makes bit i equal the former bit i+n for all surviving positions and returns the end of the surviving bits. A shift by zero or less, or by at least the length, behaves as the C++20 standard says for shift_left, and bits outside the range never change.",
  ALLR + " and every shift distance", SAMP, [A + "shift.hpp"], [("left shift by words and bits", A + "shift.hpp"), ("single-word shifts", D)])
p("C10", "Right shift moves the surviving bits to the back",
  "Shifting a range right by n makes bit i+n equal the former bit i for all surviving positions and returns the start of the surviving bits. A shift by zero or less, or by at least the length, behaves as the C++20 standard says for shift_right, and bits outside the range never change.",
  ALLR + " and every shift distance", SAMP, [A + "shift.hpp"], [("right shift by words and bits", A + "shift.hpp"), ("single-word shifts", D)])
p("C11", "Rotate moves the middle bit to the front",
  "Rotating a range about a middle position places the bits from the middle first, followed by the bits before it, each part keeping its order. The returned iterator denotes the new position of the original first bit, and the empty and full rotations change nothing.",
  ALLR + " and every middle position", SAMP, [A + "rotate.hpp", A + "reverse.hpp", A + "swap_ranges.hpp"], [("rotation by small shift, by swaps or in a single word", A + "rotate.hpp")])
p("C12", "Reverse mirrors the range",
  "Reversing a range makes its i-th bit equal the former i-th bit counted from its end, for every length and alignment, and changes no other bit.",
  ALLR, SAMP, [A + "reverse.hpp", I + "bit_details.hpp"], [("word mirroring and realignment", A + "reverse.hpp"), ("bit order reversal inside a word", I + "bit_details.hpp")])
p("C13", "Swapping ranges exchanges every pair of bits",
  "Swapping two disjoint ranges exchanges each pair of corresponding bits for any alignment of the two ranges, changes nothing else, and returns one past the last bit swapped in the second range.",
  ALLR, SAMP, [A + "swap_ranges.hpp", D], [("word-wise exchange", A + "swap_ranges.hpp"), ("bit field exchange", I + "bit_details.hpp")])
p("F01", "No algorithm changes a bit outside its destination range",
  "Whatever an algorithm does, the bits of the underlying words that lie outside its destination range, and all bits of its input ranges, keep their values.",
  "every algorithm that writes, " + ALLR, "The tests compare only the bits inside the range, and their ranges end where the container ends.", [A + "copy.hpp", A + "copy_backward.hpp", A + "fill.hpp", A + "shift.hpp", A + "rotate.hpp", A + "reverse.hpp", A + "transform.hpp", A + "swap_ranges.hpp", D], [("blending of edge words", I + "bit_details.hpp"), ("partial word writes", D)])
p("F02", "No algorithm touches memory outside its ranges or has undefined behaviour",
  "Every algorithm reads and writes only words that hold at least one bit of the ranges it was given, and executes no undefined operation such as a shift by the word width, for all valid ranges including empty ones.",
  "every algorithm, " + ALLR, "Containers under test have slack words or end exactly at a word, so an over-read of one word goes unnoticed; undefined shifts give plausible results on the tested processor.", [A + "copy.hpp", A + "equal.hpp", A + "find.hpp", A + "count.hpp", A + "shift.hpp", A + "rotate.hpp", A + "reverse.hpp", A + "transform.hpp", I + "bit_details.hpp", D], [("end-of-range tests before dereferencing", A + "copy.hpp"), ("mask construction", I + "bit_details.hpp")])
p("S01", "The vector build computes the same results as the scalar build",
  "With vector instructions enabled every algorithm gives the same contents, the same returned value and the same untouched surroundings as its scalar specification demands, for every length, alignment of the storage and position of the match.",
  "every algorithm, word type, storage alignment, range length and content", "The tests use one allocation alignment and mostly short ranges; the vector loops' entry and exit conditions depend on the address and on exact multiples of the lane count.", [A + "fill.hpp", A + "find.hpp", A + "shift.hpp", A + "transform.hpp"], [("vector loops and their scalar prologue and epilogue", A + "shift.hpp"), ("vector search", A + "find.hpp")], over=("inputs", "configurations"))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.txt")).read())
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in out:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
