"""Per property: how cases are made, how many, and what must have been seen."""
import json
import os

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "required.json")) as _f:
    _R = json.load(_f)

VALID = ("Packets built field by field: every subset of properties of every packet type, every u8/u16 value and "
         "boundary u32 values of every numeric field, every field at lengths around 0/127/128/255/16383/65535, "
         "text of every UTF-8 class and text with a meaning to other software, remaining and property lengths around "
         "every size change of the length field, many repeated items, every reason code and flag combination, pairs of "
         "related fields, dense ranges of typical values, and random packets")
HOSTILE = ("Byte streams: all streams of up to 2 bytes, all short bodies of every type, every truncation and "
           "extension of base packets, every hot byte substituted at every offset (and pairs), shifted bodies, random "
           "multi-step mutations with and without repaired lengths, type swaps, random bodies, random property "
           "sections, and size bombs")

PROPS = {
    "C01": dict(rule=VALID + "; plus sequences of packets in one buffer. Each is written and read back; the content "
                "extracted field by field must be equal, and the value itself where the API can express it. Distinct: "
                "distinct encodings."),
    "C02": dict(rule=VALID + ". Each encoding is judged by an independent decoder written from the MQTT 5 standard, "
                "which must find no violation and exactly the content that was encoded. Distinct: distinct encodings."),
    "C03": dict(rule=VALID + ". Returned count, bytes appended, size() and the length in the fixed header must agree. "
                "Distinct: distinct encodings."),
    "C04": dict(rule=VALID + ". Each is written into buffers of different spare capacity and earlier content and "
                "after other packets; what was there must be untouched and what is appended identical. Distinct: "
                "distinct encodings."),
    "C05": dict(rule=VALID + ", plus packets that cannot be encoded (each field over its limit, identifiers over "
                "their limit, QoS > 0 without identifier, codes MQTT 5 does not have, packets and property sections at and "
                "over 268,435,455 bytes, in each packet and each part that has a writer). A panic, or an error that changed the buffer, or an accepted impossible packet, is a violation. "
                "Distinct: distinct encodings or faults."),
    "C06": dict(rule=HOSTILE + ". Each stream goes through the packet reader, the header check, every typed reader and "
                "every part reader with several limits; a panic, an abort or an endless loop is a violation. Distinct: "
                "distinct streams."),
    "C07": dict(rule=VALID + ", in every wire form the standard allows (property orders, short and long forms) from a "
                "reference encoder, plus all frames out of the hostile streams that the reference decoder finds "
                "well-formed. Non-trivial: a frame the reference calls well-formed. Distinct: distinct frames."),
    "C08": dict(rule=HOSTILE + ", plus packets with exactly one planted fault. Non-trivial: frames the reference "
                "decoder calls malformed; the library must refuse each. Distinct: distinct frames."),
    "C09": dict(rule=HOSTILE + " and prefixes of valid frames, with and without a tail. After one call the bytes "
                "consumed must be exactly the frame, or none, and the count in InsufficientBytes exact. Distinct: "
                "distinct streams."),
    "C10": dict(rule="Streams of valid, refused and mutated frames, delivered whole, byte by byte, in random pieces, in "
                "two pieces at every cut and as the reader asks for more. Packets, errors and their order must not "
                "depend on the delivery. Distinct: distinct (stream, delivery) pairs."),
    "C11": dict(rule=HOSTILE + " and valid frames under limits below, at and above the size. Distinct: distinct "
                "(stream, limit) pairs."),
    "C12": dict(rule=HOSTILE + " and " + VALID + ". A counting allocator measures every read, wait and write; thread "
                "processor time is compared for inputs of one and of sixteen times the size, and of every repeated item and long field at 1 and 32 times the count. Distinct: distinct streams.",
                assumptions=["the bound is linear with fixed constants: 256 bytes and 4 allocator calls per input byte plus a constant",
                             "time is measured as a ratio with a six-fold margin, so a slow-down by a constant factor is not seen"]),
    "C13": dict(rule="Every text field of every packet filled with ill-formed and well-formed byte strings (every class "
                "of UTF-8 error, all 2-byte strings, all boundary 3- and 4-byte strings, random ones, texts with a meaning "
                "to other software), alone, in packets with every other field set, and good and bad texts of the same "
                "length and place in turns. Distinct: distinct frames."),
    "C14": dict(rule=VALID + "; " + HOSTILE + ". The outcome of every case (packets, errors, encodings, consumption) is "
                "digested in each of the four configurations and the digests compared case by case. Distinct: distinct "
                "cases."),
    "C15": dict(rule=VALID + "; " + HOSTILE + ". Each is decoded alone, again after other work, inside a larger buffer, "
                "and on several threads at once; packets held across later reads and writes are compared with a deep copy. "
                "Distinct: distinct streams.",
                assumptions=["thread interleavings are those the scheduler produced (and Miri's, in C18)"]),
    "C16": dict(rule=HOSTILE + " and " + VALID + " in every wire form. Non-trivial: frames the decoder accepts. Each "
                "accepted packet is written, read and written again. Distinct: distinct accepted frames."),
    "C17": dict(rule="All 256 values of every reason code, QoS, retain handling, protocol level, flag and type byte in "
                "every packet, in short, long and list forms and through the part readers, compared with tables transcribed from "
                "the standard; exhaustive over single bytes."),
    "C18": dict(rule="The hostile and valid workloads with a leak monitor; the same under AddressSanitizer, "
                "MemorySanitizer and, on several threads, ThreadSanitizer; and a reduced "
                "one (every base packet, damaged, truncated and hostile ones, threads, encoder faults) in the Miri "
                "interpreter. Distinct: distinct streams.", miri=14,
                assumptions=["Miri sees a workload about a thousand times smaller",
                             "the bytes crate and the standard library run instrumented as well, and are trusted to be sound"]),
    "C19": dict(rule="Identifiers, remaining lengths and property lengths over the range 0..268,435,455: dense where the "
                "size of the encoding changes, strided elsewhere (all of them when thorough), read, written and in five "
                "bytes. Distinct: distinct ranges and frames."),
    "C20": dict(rule="Packets with exactly one fault of a known kind, at random places; the error must name that kind "
                "and carry the value or numbers concerned. On all hostile streams, whatever error is returned must be true of "
                "the bytes (the value it names is there). Messages of all errors: they show no other numbers. Distinct: distinct "
                "frames."),
    "C21": dict(rule="All 256 property identifiers in all 13 property sections, each alone, repeated, in company and behind "
                "each other identifier, read and (where allowed) written; and the sections of all valid packets taken apart "
                "into (identifier, value) lists by an independent parser. Exhaustive over identifier x section; distinct: "
                "distinct frames."),
    "C22": dict(rule=VALID + "; " + HOSTILE + ". The packet-level reader and writer, the per-type ones, and the part "
                "readers and writers (properties, filters, will, login) and constructors are run on the same input and "
                "compared; numbers, codes and flags through the public helpers over their whole range. Distinct: distinct frames."),
    "C23": dict(rule=VALID + ". Each is compared with packets that differ from it in at most one place (a flag, one bit "
                "of a number, one character, one repeated item or its position), in both directions, and cloned; all pairs of "
                "QoS levels (order too), error values, headers, packet types and codes of one packet. Oracle: "
                "equality of the neutral models. Distinct: distinct pairs of packets."),
}

for _k, _v in PROPS.items():
    _v.setdefault("quick", 300)
    _v.setdefault("thorough", 300)
    _v["least"] = _R.get(_k, {}).get("least", 1)
PROPS["C10"]["quick"] = 150
PROPS["C10"]["thorough"] = 250
PROPS["C15"]["thorough"] = 200
REQUIRED = {k: v["counters"] for k, v in _R.items()}
