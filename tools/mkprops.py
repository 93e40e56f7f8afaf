#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so the wording stays uniform)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=observe or ["public API of value_bag"],hook_needed=None)))

p("C01","A captured primitive reads back as exactly the value that went in",
 "Capturing an integer, float, boolean, character or string by value, by reference, inside an Option or through any typed constructor, and reading it back through the accessor of its own kind, returns exactly that value. Integers keep sign and magnitude, floats keep their bits (f32 only widens), strings keep every byte and borrowed strings stay borrowed.",
 ["inputs","configurations"],"every value of every primitive type, every constructor/conversion into a bag, every cargo feature set",
 "Tests sample one or two constants per type (1, 42, \"a string\"); a constructor that truncates, sign-flips or swaps variants only for large or negative values, or only under one feature, passes them.",
 ["src/lib.rs","src/impls.rs","src/internal/mod.rs","src/internal/cast/mod.rs"],
 [("typed constructors","src/lib.rs"),("From conversions","src/impls.rs"),("cast visitor","src/internal/cast/mod.rs")])

p("C02","Numeric reads are exact or absent: never wrapped, truncated or rounded",
 "Reading any stored number as u64, i64, u128 or i128 (or converting a bag to a narrower integer) succeeds if and only if the stored integer is representable in the target, and then yields the same mathematical value. Reading as f64 without loss succeeds exactly for floats (unchanged) and for integers that fit in 32 bits (signed ones in i32, unsigned ones in u32); the explicitly lossy f64 read converts every integer with `as` semantics and yields NaN for anything that is not a number.",
 ["inputs","configurations"],"all integers of all widths and both signs, all floats, all non-numeric values, across every numeric accessor and TryFrom conversion",
 "The 2^64/2^128 input space and the boundary values (MIN, MAX, MAX+1, negative to unsigned) are sampled at a handful of points.",
 ["src/internal/cast/mod.rs","src/impls.rs"],
 [("Cast::into_* conversions","src/internal/cast/mod.rs"),("TryFrom impls","src/impls.rs")])

p("C03","Generic capture recognises primitives the same way typed capture does",
 "Capturing a value whose concrete type is a primitive, a string or an Option of one through any of the borrowing generic capture methods yields a bag that reads, visits and serialises exactly like the bag built by the typed constructor for that value; a None becomes the empty value. Shared capture does the same for numbers of up to 64 bits, floats, booleans and characters. Values of any other type are never mistaken for a primitive.",
 ["inputs","programs","configurations"],"every supported concrete type T and Option<T>, every value, every generic capture method, every feature set",
 "The tests try one value for a subset of (method, type) pairs; a swapped row in the type table or a missing method branch stays invisible.",
 ["src/internal/cast/primitive.rs","src/internal/cast/mod.rs","src/internal/fmt.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs","src/owned.rs"],
 [("type-id keyed conversion table","src/internal/cast/primitive.rs"),("try_capture/try_capture_owned","src/internal/cast/mod.rs")])

p("C04","A read as the wrong kind yields nothing",
 "Accessors only succeed on values of their own kind: strings are never parsed into numbers, numbers never become booleans, characters or strings, and values captured only for formatting, as errors, or poisoned give no primitive at all. The exception is the documented one: integer accessors convert between integer widths.",
 ["inputs","programs"],"every pair (kind of captured value, accessor), for every value of the kind",
 "There are some 25 kinds and 10 accessors; the tests check the diagonal and a few off-diagonal cells with fixed values.",
 ["src/internal/cast/mod.rs","src/internal/mod.rs"],
 [("cast visitor and Cast::into_*","src/internal/cast/mod.rs"),("variant dispatch","src/internal/mod.rs")])

p("C05","Downcasting returns the original captured value, or nothing",
 "A bag made by a generic capture method from a non-primitive T downcasts to T and yields a reference to that very value, also after by_ref and clone; one captured as shared does so also after being owned, shared and re-borrowed. Downcasting to any other type, or a bag made by a from_* method, yields nothing.",
 ["programs","histories"],"every capture method, every captured type, every requested type, every chain of by_ref/clone/to_owned/into_shared",
 "Tests cover some capture methods with one struct and no chains; a missing arm in one of the variant matches returns None silently.",
 ["src/internal/cast/mod.rs","src/internal/fmt.rs","src/internal/error.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs","src/owned.rs"],
 [("downcast_ref variant match","src/internal/cast/mod.rs"),("Downcast* traits","src/internal/*")])

p("C06","Visiting delivers each value once, to the right method, with errors kept",
 "Visiting a bag calls exactly one visitor method, the one for the captured kind, with exactly the captured value (borrowed strings and errors through the borrowed methods), and returns what that method returned. A visitor that overrides none of the specific methods receives every value through visit_any, carrying an equal value (a character as one-character text); a mutable reference to a visitor behaves as the visitor itself.",
 ["inputs","programs","histories"],"every kind and value, every visitor (any subset of overridden methods, any result including errors)",
 "Tests use a visitor that overrides a few methods and always succeeds; dropped errors, double visits and mis-forwarded methods need an arbitrary visitor.",
 ["src/visit.rs","src/internal/mod.rs"],
 [("Visit defaults and &mut forwarding","src/visit.rs"),("Visitor adapter","src/visit.rs"),("variant dispatch","src/internal/mod.rs")])

p("C07","Formatting goes through the value's own Debug or Display unchanged",
 "Formatting a bag with {:?} or {} performs exactly the formatting of the captured value on the caller's own formatter, so width, precision, alternate and other flags apply, and the formatting result is returned unchanged. Primitives use the matching trait, values captured for one trait use that trait under both, and a None formats as None.",
 ["inputs","programs","fault_sequences"],"every kind and value, both traits, every formatter state, formatter failures at any point",
 "Tests compare format!(\"{:?}\") output for a few constants with default flags and never let the writer fail.",
 ["src/internal/fmt.rs","src/internal/error.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs"],
 [("DebugVisitor/DisplayVisitor","src/internal/fmt.rs"),("fmt bridges","src/internal/serde/v1.rs, src/internal/sval/v2.rs")])

p("C08","Serialising with serde makes one exact serializer call and keeps its result",
 "Serialising a bag with serde drives the given serializer exactly once with the captured value in its own serde representation (u64, i64, u128, i128, f64, bool, char, str, none, or the captured value's own Serialize), and returns that call's result. A serializer error is never turned into success and no value is ever silently omitted.",
 ["inputs","programs","fault_sequences"],"every kind and value, every serializer, failure at any serializer call",
 "serde_test tokens are compared for a few constants on a serializer that never fails.",
 ["src/internal/serde/v1.rs","src/internal/mod.rs"],
 [("Serde1Visitor","src/internal/serde/v1.rs")])

p("C09","Streaming with sval reports exactly the captured value and every stream error",
 "Streaming a bag with sval feeds the stream exactly the events of the captured value, once, borrowed data as borrowed, and fails if and only if a stream call or the captured value failed. No event is added, lost, duplicated or reordered.",
 ["inputs","programs","fault_sequences"],"every kind and value, every stream, failure at any stream call",
 "sval_test tokens are compared for a few constants on a stream that never fails.",
 ["src/internal/sval/v2.rs","src/internal/mod.rs"],
 [("Sval2Visitor","src/internal/sval/v2.rs")])

p("C10","Structured values cross between serde, sval and formatting intact",
 "A value captured with one serialization framework and consumed through another (serde to sval, sval to serde, either to Debug/Display, either to the visitor or the accessors) is handed over whole: the consumer is driven by that value's own implementation, primitives come out as primitives, and a failure in the bridge surfaces as a failure.",
 ["inputs","programs","fault_sequences"],"every captured Serialize/Value implementation, every consumer, failures at any point",
 "Tests bridge a single struct and a few primitive constants.",
 ["src/internal/serde/v1.rs","src/internal/sval/v2.rs","src/visit.rs"],
 [("sval2/serde1 bridge functions","src/internal/serde/v1.rs, src/internal/sval/v2.rs"),("internal_visit","src/internal/serde/v1.rs, src/internal/sval/v2.rs")])

p("C11","Re-borrowing or cloning a bag changes nothing observable",
 "A bag and its by_ref() or clone() are indistinguishable through every accessor, visitor, formatter and serializer, for every kind of captured value including shared and poisoned ones, any number of times.",
 ["inputs","programs","histories"],"every kind and value, every consumer, any chain of by_ref/clone",
 "by_ref is an exhaustive hand-written match over about 30 kinds; tests touch a few of them.",
 ["src/internal/mod.rs","src/lib.rs","src/owned.rs"],
 [("Internal::by_ref","src/internal/mod.rs"),("OwnedInternal::by_ref","src/internal/owned.rs")])

p("C12","Owning a primitive or string keeps it exactly, whatever its size",
 "Converting a bag that holds a number, boolean, character, string or nothing into an owned or shared bag, and any clone of it, keeps the exact value for every later read, visit, format and serialisation (an integer may come back through a wider integer type). This holds for strings of every length, on both sides of any inline-storage limit.",
 ["inputs","histories","configurations"],"every primitive value, every string of every length and content, every chain of to_owned/to_shared/into_shared/clone/by_ref, every storage feature",
 "Tests own one short string and a few numbers; boundary lengths and i128/u128 extremes are not enumerated.",
 ["src/internal/owned.rs","src/owned.rs"],
 [("OwnedVisitor","src/internal/owned.rs"),("InlineStr","src/internal/owned.rs"),("OwnedInternal::by_ref","src/internal/owned.rs")])

p("C13","Owning a formatted, error or structured value keeps its content or poisons it",
 "Owning a bag captured for Debug or Display keeps its complete formatted text for any text length and any number of writes; owning an error keeps its message and its whole source chain; owning a serde, sval or sequence value keeps its buffered content. If buffering a structured value fails the owned bag is poisoned and says so: it never becomes an empty or partial value.",
 ["inputs","programs","histories","fault_sequences"],"every captured implementation (any number and size of writes), every error chain, failure of buffering",
 "Tests own values with one short write; text that is written in several pieces around the inline limit, long chains and failing values are not reached.",
 ["src/internal/owned.rs","src/internal/fmt.rs","src/internal/error.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs","src/internal/seq.rs"],
 [("OwnedVisitor","src/internal/owned.rs"),("InlineStr::buffer","src/internal/owned.rs"),("owned::buffer functions","src/internal/*")])

p("C14","Shared owned values are shared, never re-buffered",
 "Capturing a value directly as shared keeps that very value: it is not formatted, serialised or copied by the capture, by cloning, by re-borrowing or by converting the borrowed bag back to owned. Every clone and every re-owned bag consumes the same original value through its own implementation.",
 ["programs","histories"],"every shared capture method, every chain of by_ref/to_owned/to_shared/clone/into_shared",
 "Tests check a single by_ref/to_owned round trip for some kinds by downcasting.",
 ["src/owned.rs","src/internal/owned.rs","src/internal/mod.rs"],
 [("shared_* visitor methods","src/internal/owned.rs"),("SharedRef variants","src/internal/mod.rs")])

p("C15","Sequence extraction gives one entry per element, in order",
 "Extracting a sequence of some primitive kind from a bag yields exactly one entry per element of the captured sequence, in order, holding what the scalar accessor of that kind yields for that element and nothing for elements of another kind, including nested ones. Values that are not sequences, and sequences whose own producer fails, yield no sequence at all; an element that fails is an entry holding nothing.",
 ["inputs","programs","fault_sequences"],"every sequence length and content, every element kind, native, serde and sval sequences, every extraction accessor",
 "Tests extract a few three-element arrays; nesting depth, element kinds and failures are not enumerated.",
 ["src/internal/seq.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs"],
 [("Internal::extend","src/internal/seq.rs"),("serde/sval extend","src/internal/serde/v1.rs, src/internal/sval/v2.rs")])

p("C16","Captured sequences are consumed completely, in order, and stop on failure",
 "Formatting, serialising, streaming, visiting or owning a captured slice presents every element exactly once, in order, inside one well-formed sequence. When a consumer call fails, no further element is presented and the failure is returned.",
 ["inputs","fault_sequences"],"every slice length and content, every sink, failure at any element",
 "Tests use three-element arrays and sinks that never fail.",
 ["src/internal/seq.rs","src/internal/fmt.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs"],
 [("Seq::visit implementations","src/internal/seq.rs"),("serialize_seq / StreamVisitor / FmtSeq","src/internal/*")])

p("C17","A lazily filled bag behaves as the value put in its slot",
 "A bag made from a fill function runs it when consumed and every consumer sees exactly the value the function put into the slot, as if that value had been captured directly; only the emptiness test, downcasting and the borrowed-error accessor answer without running it. An error returned by the function, or by the consumer inside it, is reported by consumers that report errors.",
 ["programs","fault_sequences"],"every fill function (any value kind, success or error), every consumer",
 "Tests fill with one or two constants and ignore failures.",
 ["src/fill.rs","src/internal/fmt.rs","src/internal/error.rs","src/internal/seq.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs"],
 [("Slot::fill_*","src/fill.rs and src/internal/*"),("fill visitor methods","src/internal/*")])

p("C18","Empty and poisoned bags never look like values",
 "A bag is empty exactly when it captured nothing (None, unit or an empty Option); empty bags read as no value, serialise as none/null and format as None. A poisoned bag is not empty, yields no value from any accessor, fails visiting, serialising and streaming, and formats as its message in angle brackets, also after by_ref, clone and owning.",
 ["inputs","programs","histories"],"every kind and value for is_empty, every consumer for empty and poisoned bags, every chain of re-borrowing and owning",
 "Tests check is_empty on two values and poison on none of the consumers.",
 ["src/internal/cast/mod.rs","src/internal/mod.rs","src/internal/owned.rs","src/visit.rs","src/internal/fmt.rs"],
 [("poisoned visitor methods","src/internal/*"),("is_empty","src/internal/cast/mod.rs")])

p("C19","Safe calls never cause undefined behaviour",
 "No sequence of safe calls makes the library read memory at a type other than its own, read or write outside an inline string buffer, expose bytes that are not initialised valid UTF-8 as a string, or produce a reference that outlives its value. In particular every length and every multi-part write around the inline capacity stays in bounds.",
 ["inputs","programs","configurations"],"every captured type, every string length and write pattern, every storage feature",
 "Undefined behaviour is invisible to passing tests, and the boundary lengths and write patterns are not enumerated.",
 ["src/internal/cast/primitive.rs","src/internal/owned.rs","src/internal/seq.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs","src/internal/error.rs"],
 [("type-id guarded pointer casts","src/internal/cast/primitive.rs"),("InlineStr","src/internal/owned.rs"),("SeqSlice","src/internal/seq.rs")])

p("C20","Consuming a bag never panics on its own",
 "Reading, converting, downcasting, visiting, formatting, serialising or streaming a bag, and owning one whose captured implementations succeed, never panics, whatever value it holds and whatever its visitors, formatters and serializers return. In particular integer extremes, empty strings and sequences, failing sinks and uncooperative fill functions give an ordinary result.",
 ["inputs","programs","fault_sequences","configurations"],"every kind and value, every consumer, every result returned by user code",
 "Panics need specific values or failing collaborators that the tests do not use.",
 ["src/internal/owned.rs","src/internal/cast/mod.rs","src/internal/seq.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs","src/error.rs"],
 [("checked conversions","src/internal/cast/mod.rs"),("unreachable arms","src/internal/owned.rs")])

p("C21","Lifetimes and thread-safety of bags are enforced by the compiler",
 "A borrowed bag cannot outlive the value it borrows, strings and errors borrowed from a bag live as long as the captured value, downcasts as long as the borrow of the bag, and neither any longer, and a bag over short-lived data cannot be turned into a longer-lived one except by owning it. Owned bags are 'static, Send and Sync, shared capture demands Send, Sync and 'static values, and borrowed bags are neither Send nor Sync.",
 ["programs"],"every safe client program",
 "A test that compiles cannot show that another program is rejected; a loosened bound or lifetime only adds accepted programs.",
 ["src/lib.rs","src/owned.rs","src/internal/mod.rs","src/internal/seq.rs","src/internal/cast/mod.rs","src/fill.rs"],
 [("signatures and bounds","src/*.rs"),("auto traits of the representation","src/internal/mod.rs, src/internal/owned.rs")])

p("C22","Errors captured in a bag stay that error",
 "An error captured by reference is returned as that very error by the borrowed-error accessor and by visiting, formats through its own Debug and Display, and serialises as its Display text; non-errors give no error. The library's own error type displays the message or inner error it was made from, and with std the message of a failing serde serializer is kept inside the error that serialising returns.",
 ["inputs","programs"],"every error implementation, every consumer, every non-error kind",
 "Tests capture one io::Error.",
 ["src/internal/error.rs","src/error.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs"],
 [("error visitor methods","src/internal/*"),("Error","src/error.rs")])

p("C23","Capturing is lazy and consumers run user code at most once",
 "Capturing, re-borrowing, cloning and downcasting a bag never call the captured value's formatting, serialization or fill code. Formatting, serialising, streaming or visiting a bag runs the captured value's implementation exactly once, and owning one runs it once and never again afterwards, also when it fails.",
 ["programs","histories"],"every captured implementation, every capture method and consumer",
 "Tests do not count calls into user implementations.",
 ["src/lib.rs","src/internal/mod.rs","src/internal/fmt.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs","src/internal/owned.rs","src/visit.rs"],
 [("by-reference capture","src/internal/*")])

p("C24","Test tokens describe exactly the captured value",
 "Converting a bag to a test token gives the token of the captured kind holding the captured value: numbers, floats, booleans, characters, strings and none exactly, formatted values as their text, errors as the error token, and structured values tagged with their framework.",
 ["inputs"],"every kind and value",
 "The token code is only used to write other tests and is itself compared with a few constants.",
 ["src/test.rs"],
 [("TestVisitor","src/test.rs")])

os.makedirs("/verif",exist_ok=True)
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
