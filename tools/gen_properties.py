#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here as Python so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
S = "src/checkpoint/"
C = S + "container/"
API = [S + "checkpoint_api.h", S + "checkpoint_api.impl.h", S + "dispatch/dispatch.impl.h"]
CONT = [C + f for f in ("array_serialize.h", "chrono_serialize.h", "container_serialize.h", "enum_serialize.h", "list_serialize.h",
        "map_serialize.h", "optional_serialize.h", "queue_serialize.h", "string_serialize.h", "tuple_serialize.h",
        "unique_ptr_serialize.h", "variant_serialize.h", "vector_serialize.h")]

prop("C01", "Round trip restores every supported value",
  "For every serializable type composition and every value of it, deserializing what was serialized yields an object equal to the original: the same elements (in order wherever the container is ordered), the same null, empty and active-alternative states, the same bits in every scalar, and vectors (other than elements of queues and keys of maps, which are copied) have at least as much reserved capacity. This holds through a library buffer, a caller-supplied buffer, a file and a stream, and with serialization error checking built in or not.",
  ["inputs", "configurations"], "all compositions of the supported leaf, container, pointer and user types, all their values, all transports, error checking on and off",
  "Tests sample a few containers of ints/doubles and one build configuration (error checking on); nested compositions, empty/null/alternative states, special bit patterns and the release configuration are not reached.",
  API + CONT, [("operator| / Traverse::with recursion", S + "dispatch/dispatch.impl.h"), ("per-container serialize overloads", C), ("packer/unpacker cursors", S + "serializers/packer.impl.h")],
  [("cur_", "position in the byte image", S + "serializers/memory_serializer.h")], ["checkpoint::serialize/deserialize*, ...ToFile/FromFile, ...ToStream/FromStream"])

prop("C02", "Reported size is exact and buffers are never overrun",
  "The size reported for an object is exactly the number of bytes written for it to a buffer, a file or a stream and exactly the number of bytes consumed when it is read back. A caller's buffer callback is asked exactly once, for exactly that size, and its buffer is the one used and returned (a null answer falls back to a library buffer). No byte outside the buffer is ever written, and no byte outside the image is ever read, for any value including images larger than 4 GiB.",
  ["inputs", "configurations"], "all types and values, all transports, buffer sizes up to and beyond 32-bit lengths",
  "Tests check the size of a handful of values and never place a buffer next to unmapped memory or use large lengths.",
  API + [S + "serializers/sizer.cc", S + "serializers/packer.impl.h", S + "serializers/unpacker.impl.h", S + "serializers/stream_serializer.h", S + "buffer/managed_buffer.h", S + "buffer/user_buffer.h"],
  [("sizing pass before packing", S + "dispatch/dispatch.impl.h"), ("validatePackerBufferSize", S + "dispatch/dispatch.impl.h")],
  [("num_bytes_", "sized bytes", S + "serializers/sizer.h"), ("usedSize_", "packed bytes", S + "serializers/packer.h")],
  ["getSize", "SerializedInfo::getSize/getBuffer", "BufferCallbackType"])

prop("C03", "Writing an object never changes it, and reading never changes the image",
  "Sizing, serializing (to a buffer, file or stream) and footprinting an object leave it observably unchanged, and doing any of them again, in any order and any number of times, gives the same size and the same bytes. Deserializing does not modify the image, so the same image can be deserialized any number of times with equal, independent results.",
  ["inputs", "histories"], "all values and all sequences of read-only operations on one object and of deserializations of one image",
  "Tests serialize each object once and rarely compare the source afterwards; no repeated or mixed sequences.",
  API + CONT, [("sizing/packing/footprinting modes share one serialize()", S + "dispatch/dispatch.impl.h"), ("queue copied before draining", C + "queue_serialize.h")],
  observe=["object state before/after", "image bytes before/after"])

prop("C04", "Images are interchangeable between transports",
  "For one object the library buffer, the caller's buffer, the file contents and the bytes written to a stream are the same image. Hence an image produced through any transport can be read back through any other (for example a memory buffer saved by the caller and read with the file or stream API), both into a new object and in place, with the same result.",
  ["inputs", "configurations"], "all types and values, all (write transport, read transport) pairs, error checking on and off",
  "Tests read each image only through the transport that wrote it.",
  API + [S + "serializers/stream_serializer.h", S + "serializers/packer.impl.h", S + "serializers/unpacker.impl.h", S + "buffer/io_buffer.cc"],
  [("one traversal, several packers", S + "dispatch/dispatch.impl.h")], observe=["image bytes per transport", "results of cross reads"])

prop("C05", "In-place deserialization replaces the previous state",
  "Deserializing in place (from memory, a file or a stream) into an existing object leaves it equal to the serialized object, whatever it held before: nothing of its previous contents survives and nothing is merged or appended, at any nesting depth. Polymorphic pointees must have the serialized dynamic type (or be null).",
  ["inputs", "histories"], "all pairs (previous value, serialized value) of one type, and chains of in-place restores, all three in-place entry points",
  "Tests restore in place only over default-constructed or identical objects.",
  API + CONT, [("in-place branches of the container overloads", C), ("pointer reuse", S + "dispatch/vrt/virtual_serialize.h")],
  observe=["deserializeInPlace", "deserializeInPlaceFromFile", "deserializeInPlaceFromStream"])

prop("C06", "A stream is a sequence of self-delimiting records",
  "Objects serialized one after another to a stream are read back one after another, each equal to what was written, each read starting exactly where the previous one ended and leaving unrelated bytes before and after it untouched; this holds for every stream class that offers the stream operations (for polymorphic objects: every class derived from the standard streams). If the stream holds fewer bytes than the record needs, the read throws and never returns a partially filled new object.",
  ["histories", "inputs", "fault_sequences"], "all interleavings of writes and reads of differently typed objects on several streams, starting offsets, and all truncation points",
  "Tests write and read one object per stream through file streams, never truncated, never polymorphic.",
  API + [S + "serializers/stream_serializer.h", S + "serializers/serializers_headers.h", S + "dispatch/vrt/serialize_instantiator.h"],
  [("StreamPacker/StreamUnpacker", S + "serializers/stream_serializer.h")], [("n_bytes", "bytes moved", S + "serializers/stream_serializer.h")],
  ["serializeToStream", "deserializeFromStream", "tellp/tellg"])

prop("C07", "File errors are reported and no file resource leaks",
  "If opening, sizing, allocating space for, mapping, syncing, unmapping or closing the file fails while writing a checkpoint, the call throws std::runtime_error instead of reporting success or terminating the program; if the file cannot be opened, inspected or mapped for reading, the read throws std::runtime_error. Whether a call succeeds, fails on the file system, or is left by an exception from user code, every descriptor and mapping it created is released exactly once. A write that returns normally leaves a file of exactly the image's length and content whose data has been synchronously flushed after the last byte was produced, whatever the file held before.",
  ["fault_sequences", "inputs"], "failure of any file-system call (and pairs of failures, and user exceptions) at any point of any file operation",
  "Tests only use healthy files; no test injects a failing system call or counts descriptors and mappings.",
  [S + "buffer/io_buffer.h", S + "buffer/io_buffer.cc", S + "checkpoint_api.impl.h"],
  [("setupForWrite/setupForRead/closeFile", S + "buffer/io_buffer.cc")],
  [("fd_", "open descriptor", S + "buffer/io_buffer.h"), ("buffer_", "mapping", S + "buffer/io_buffer.h")],
  ["file-system calls made by the library", "exception type", "file contents"])

prop("C08", "A torn or truncated checkpoint is never accepted as valid",
  "If the process dies at any moment while an object is being written to a file (also over an existing older checkpoint of the same type), or the file or stream is cut to any shorter length, reading it back through the file or stream API throws an exception, unless the surviving content is still the complete image, in which case the result equals the original. It never crashes and never yields a different object.",
  ["crash_points", "inputs", "configurations"], "all crash points during the write, all truncation lengths, with and without an older file, error checking on and off",
  "Tests never interrupt a write and never read an incomplete file.",
  [S + "buffer/io_buffer.cc", S + "dispatch/dispatch.impl.h", S + "serializers/unpacker.impl.h", S + "serializers/stream_serializer.h"],
  [("O_TRUNC + ftruncate before packing", S + "buffer/io_buffer.cc"), ("type header first, size trailer last", S + "dispatch/dispatch.impl.h")],
  observe=["deserializeFromFile/FromStream on torn files"])

prop("C09", "An image is never read as another type",
  "Deserializing an image of one type as any other type (new object or in place; from memory, file or stream) throws a serialization error, in every build configuration; deserializing it as its own type never does. Input that does not begin like an image of the requested type is rejected the same way, and a rejected read leaves the library usable.",
  ["inputs", "configurations"], "all ordered pairs of distinct types of a program (however many types it serializes), all transports, error checking on and off",
  "Tests try five type pairs in one configuration.",
  [S + "dispatch/type_registry.h", S + "dispatch/dispatch.impl.h"],
  [("withTypeIdx", S + "dispatch/dispatch.impl.h"), ("type registry indices", S + "dispatch/type_registry.h")],
  [("Type<T>::idx", "type index", S + "dispatch/type_registry.h")], ["dispatch::serialization_error"])

prop("C10", "Inconsistent user serializers are detected, consistent ones never rejected",
  "If a type's serialize function writes a different number of bytes than it sized, serializing it (to memory, a file or a stream) throws a serialization error and never writes past the buffer. With error checking built in, a serialize function that reads back a different sequence of types than it wrote throws a serialization error on deserialization, however deep in the object it happens. A consistent serializer is never rejected.",
  ["programs", "configurations"], "all combinations of per-pass field sequences at all nesting positions",
  "Tests contain four hand-written inconsistent types, none of which writes more than it sized.",
  [S + "dispatch/dispatch.impl.h", S + "checkpoint_api.impl.h", S + "serializers/packer.impl.h"],
  [("withTypeIdx/withMemUsed around every object", S + "dispatch/dispatch.impl.h"), ("validatePackerBufferSize", S + "dispatch/dispatch.impl.h")],
  observe=["dispatch::serialization_error"])

prop("C11", "Polymorphic objects keep their dynamic type and all of their levels",
  "An object of a registered class hierarchy serialized through a base pointer is restored with the same dynamic type and with the state of every level of the hierarchy, wherever the pointer occurs (members, containers, inside other polymorphic objects, raw or shared pointers using the documented helper) and through every transport. In each pass every level's serialize runs exactly once per object, base levels before derived levels.",
  ["inputs", "programs"], "all object graphs over several hierarchies (macro- and wrapper-declared, multi-level, abstract levels), all transports",
  "Tests use two or three fixed objects each, mostly through one memory buffer.",
  [S + "dispatch/vrt/" + f for f in ("base.h", "derived.h", "object_registry.h", "serializer_registry.h", "virtual_serialize.h", "serialize_instantiator.h", "link_derived_to_base_idx.h")] + [S + "dispatch/dispatch_serializer_nonbyte.h"],
  [("_checkpointDynamicSerialize / _checkpointDynamicTypeIndex", S + "dispatch/vrt/derived.h"), ("virtual-disabled flag", S + "dispatch/dispatch_serializer_nonbyte.h")],
  [("object registry", "type index to allocator/constructor", S + "dispatch/vrt/object_registry.h")], ["dynamic type and state of restored objects", "per-level serialize calls"])

prop("C12", "Objects are reconstructed by the documented precedence, exactly once",
  "Whenever the library itself has to create an object to deserialize into (top level through any transport, a pointee, an optional value, a variant alternative, a tuple element, an element of a set, queue, list or deque, and of a vector whose elements have no default constructor), it uses the type's tagged constructor if there is one, else its reconstruct function (member, free or trait specialization), else its default constructor. Objects that come into being as part of another one (members, array elements, the halves of a pair or of a map's element, elements a vector can default-construct) come from that object's own constructor. Each creation happens exactly once per restored object (plus at most one prototype per sequence, from which elements may be copied) and before the object's serialize function runs; an empty optional or null pointer creates nothing; in-place deserialization creates no new top-level object.",
  ["programs", "inputs"], "all combinations of construction capabilities and all contexts in which an object is created",
  "Tests cover single capabilities in a few contexts, not their combinations and precedence per context.",
  [S + "dispatch/reconstructor.h", S + "traits/reconstructor_traits.h", S + "traits/serializable_traits.h", C + "list_serialize.h", C + "map_serialize.h", C + "vector_serialize.h", C + "tuple_serialize.h", C + "optional_serialize.h", C + "variant_serialize.h", C + "queue_serialize.h"],
  [("Reconstructor::construct", S + "dispatch/reconstructor.h")], observe=["constructor/reconstruct calls seen by user types"])

prop("C13", "Every object and byte the library creates is released exactly once",
  "Once the caller has disposed of what it was given, every object constructed during (de)serialization has been destroyed exactly once and every allocation freed, both when the operation succeeds and when it is left by an exception at any point (a serialization error, a short stream, an unreadable file or an exception from a user serialize function). Memory supplied by the caller (serialization buffers and object storage) is never freed or reallocated by the library, and no object is used after its destruction.",
  ["inputs", "fault_sequences"], "all types, all transports, every point at which a read or write can fail",
  "Tests do not count constructions, destructions or allocations and never fail half way through a container.",
  [S + "dispatch/dispatch.impl.h", S + "dispatch/allocator.h", S + "checkpoint_api.impl.h", S + "dispatch/vrt/virtual_serialize.h"] + CONT,
  [("element temporaries on raw storage", S + "dispatch/allocator.h"), ("deserializeType ownership", S + "dispatch/dispatch.impl.h")],
  observe=["constructor/destructor calls of user types", "operator new/delete"])

prop("C14", "Custom traversals visit every part exactly once, in serialization order",
  "A user-defined traverser applied to an object is passed, by reference and as the same traverser object throughout, to every part of the object exactly once and in the order in which it is serialized, with the library adding no elements of its own; the bytes it is shown are exactly the object's data. If the traverser supplies its own dispatcher, that dispatcher is consulted for every nested user-type or container object, exactly once each, and what it intercepts is not descended into.",
  ["inputs", "programs"], "all types and values, traversers with default and custom dispatchers",
  "Tests traverse two fixed objects and compare a byte total.",
  [S + "dispatch/dispatch.h", S + "dispatch/dispatch.impl.h", S + "dispatch/dispatch_serializer_byte.h", S + "dispatch/dispatch_serializer_nonbyte.h", S + "serializers/base_serializer.h"],
  [("Traverse::with", S + "dispatch/dispatch.impl.h"), ("DispatcherType", S + "serializers/base_serializer.h")], observe=["contiguousBytes and dispatcher calls of the traverser"])

prop("C15", "Memory footprint is the exact sum over the reachable parts",
  "The reported memory footprint is the given offset plus the larger of the object's own size and the sum over its parts, where a scalar or byte-copied or opaque object counts its size, a string its own size plus its capacity, a vector its own size plus its elements plus its unused capacity, any other container its own size plus the footprint of each element (queues and stacks: the size of each element), a map element or pair its own size plus both halves, an optional its own size plus the size of its value, a pointer its own size plus its pointee if non-null and followable, and a tuple, array or class the sum of its parts.",
  ["inputs"], "all types and values, including empty, null, reserved and nested ones, any offset",
  "Tests compare single-level examples only.",
  [S + "serializers/footprinter.h", S + "checkpoint_api.impl.h", C + "raw_ptr_serialize.h", C + "shared_ptr_serialize.h", C + "atomic_serialize.h", C + "function_serialize.h", C + "thread_serialize.h"] + CONT,
  [("Footprinter", S + "serializers/footprinter.h")], [("num_bytes_", "footprint", S + "serializers/footprinter.h")], ["getMemoryFootprint"])

prop("C16", "Operations are isolated from each other",
  "Independent operations on distinct objects do not influence each other: when several threads interleave their serializations, deserializations and traversals in any order, when a serialize function itself performs complete (de)serializations of other objects, and after any number of earlier operations that failed with an exception, every operation gives the result it would have given alone.",
  ["schedules", "histories"], "all interleavings of the steps of concurrent operations, nesting of operations, and histories with failing operations",
  "Tests are single-threaded and never nest operations or continue after a failure.",
  [S + "dispatch/dispatch.impl.h", S + "serializers/base_serializer.h", S + "dispatch/vrt/serializer_registry.h", S + "dispatch/type_registry.h", S + "dispatch/dispatch_serializer_nonbyte.h"],
  [("per-operation serializer objects", S + "dispatch/dispatch.impl.h"), ("virtual-disabled flag per serializer", S + "serializers/base_serializer.h")],
  [("virtual_disabled_", "virtual dispatch switched off for the next object", S + "serializers/base_serializer.h")], ["results per operation"])

prop("C17", "Registration order does not matter",
  "Type identities and polymorphic dispatch are the same from every translation unit of a program and do not depend on the order in which translation units are linked or types and traversals are first used: for every such order all values (polymorphic ones included) round-trip between translation units, distinct types never share an identity, and no class is served by another class's or another traversal's entry.",
  ["configurations", "programs", "histories"], "all link and first-use orders, any number of registered types and hierarchies",
  "Each test binary has one link order and registers few types.",
  [S + "dispatch/type_registry.h", S + "dispatch/vrt/object_registry.h", S + "dispatch/vrt/serializer_registry.h", S + "dispatch/vrt/link_derived_to_base_idx.h", S + "dispatch/vrt/serialize_instantiator.h"],
  [("static registrars", S + "dispatch/type_registry.h"), ("base index linking", S + "dispatch/vrt/link_derived_to_base_idx.h")],
  [("base_idx_", "entry of the base class for the same serializer", S + "dispatch/vrt/serializer_registry.h")], ["round trips across translation units"])

prop("C18", "Each object is handled exactly once per pass by its declared strategy",
  "In each pass (sizing, packing, unpacking) every reachable object is handled exactly once: by raw byte copy if its type is arithmetic or declared byte-copyable (by member trait, trait specialization or macro), even if it also has a serialize function; otherwise by its serialize function, member or free, called exactly once on that very object (a queue's elements: on a copy of the queue), elements of arrays and sequences in index order (the order of a std::tuple's components is unspecified). Members not mentioned by serialize are not touched.",
  ["programs", "inputs"], "all combinations of declared strategies in all containers and positions",
  "Tests check single strategies on fixed objects and do not count calls.",
  [S + "dispatch/dispatch_serializer_byte.h", S + "dispatch/dispatch_serializer_nonbyte.h", S + "traits/serializable_traits.h", S + "dispatch/dispatch_byte_macro.h", S + "dispatch/clean_type.h"],
  [("SerializerDispatchByte/NonByte overload selection", S + "dispatch/dispatch_serializer_byte.h")], observe=["serialize calls seen by user types", "restored values"])

prop("C19", "Kokkos views, containers and scalars round-trip",
  "A managed Kokkos view of any rank below eight, layout, extents (static, dynamic, zero), element type, memory space or const-ness, a dynamic-rank or dynamic view, an unordered map (whatever was inserted and erased before), pair, complex number, array, sparse graph or matrix, alone or inside other objects, is restored from memory, file and stream with the same label, extents, strides (for strided layouts), chunk size and elements, whatever its memory's arrangement and whatever was in the object read in place; the sizing pass reports exactly what is written; the source is unchanged, shares nothing with what is restored, and nothing is left over. Memory of spaces the host cannot access is only reached by deep copies. serializeExtentOnly transfers exactly the extents, serializeContentsOnly exactly the elements, and ViewEquality answers whether extents, label and elements agree.",
  ["inputs", "histories", "configurations"], "all Kokkos types, layouts, extents, strides, values and map histories",
  "Kokkos tests are not built in this environment at all; where they are, they sample a handful of extents and one padded layout, and never look at a view's old contents, at erased map entries or at comparisons that have to fail.",
  [C + f for f in ("view_serialize.h", "view_traverse_manual.h", "view_traverse_ndim.h", "view_equality.h", "kokkos_unordered_map_serialize.h", "kokkos_pair_serialize.h", "kokkos_complex_serialize.h", "kokkos_array.h")],
  [("view serialize overloads", C + "view_serialize.h")])

prop("C20", "Every class is classified and handled as its declarations say",
  "For every combination of declarations a class may make (byte copying by member trait, inheritance, non-intrusive trait or specialization; a member, free or macro-made serialize function; serializeParent and serializeThis; default and tagged constructors, accessible or not; member, free or specialized reconstruct, well-formed or not) the public traits answer accordingly: byte-copyable, having a serialize function, traversable, constructible and serializable exactly when the declarations make it so, in every build configuration. Every class they call usable can be written, read back and read in place, and is then handled just so: its bytes if byte-copyable, else its member serialize function (followed by serializeParent and serializeThis if it has both), else its free one, once per pass; created by tagged constructor, else reconstruct, else default constructor.",
  ["programs"], "all combinations of the declarations listed",
  "Tests static_assert four hand-written classes.",
  [S + "traits/serializable_traits.h", S + "traits/reconstructor_traits.h", S + "detector.h", S + "dispatch/dispatch_serializer_byte.h", S + "dispatch/dispatch_serializer_nonbyte.h", S + "dispatch/reconstructor.h", S + "dispatch/dispatch_byte_macro.h"],
  [("SerializableTraits", S + "traits/serializable_traits.h")], observe=["trait values", "calls seen by the class", "restored members"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
