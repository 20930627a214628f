"""Single source for properties.jsonl and MANIFEST.json: run tools/table.py to regenerate."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, M, D, U = "mpact/sim/generic/", "mpact/sim/util/memory/", "mpact/sim/decoder/", "mpact/sim/util/"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="",
         claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, state=state, observe=observe, note=note,
                  claimed=claimed, reason=reason))


prop("C01", "Delay lines fire every scheduled action once, on time, in order",
     "Every action added to a delay line with latency n >= 1 is performed exactly once, during "
     "the n-th Advance() after it was added; actions due in the same cycle are performed in the "
     "order they were added. This holds for every initial size, every mix of latencies (the line "
     "grows as needed) and for actions that add further actions when they fire. The counts "
     "returned by Add() and Advance() and IsEmpty() always reflect exactly the actions still pending.",
     ["histories", "configurations"],
     "all sequences of Add(latency) and Advance(), all initial sizes, re-entrant Adds",
     "delay_line_test adds a handful of fixed latencies; wrap-around combined with growth at a "
     "particular ring position is never sampled (a latency equal to the current size already broke it).",
     [G + "delay_line.h", G + "function_delay_line.h", G + "delay_line_interface.h"],
     [("DelayLine::Add / Resize / Advance", G + "delay_line.h")],
     [("delay_line_, current_, mask_", "ring of record lists", G + "delay_line.h")],
     ["Add", "Advance", "IsEmpty"],
     "TLC checks the abstract delay line and that the ring implementation model refines it; every "
     "transition of the bounded model is replayed in the real templates and random long executions "
     "are validated by TLC.")

prop("C02", "Data buffers are owned, recycled and copied without aliasing or loss",
     "A data buffer stays alive with unchanged contents while its reference count is positive, is "
     "returned to its factory exactly once when the count reaches zero, and is handed out again only "
     "for a request of exactly its size and with a reference count of one. At any time no two live "
     "buffers share storage, every allocated buffer has exactly the requested size, copies equal "
     "their source and are independent of it, and typed element or span access is a view of the same "
     "bytes. Clearing a factory releases only buffers that nobody references, and the factory stays usable.",
     ["histories", "inputs"],
     "all sequences of allocate/copy/inc/dec/set/get/clear over all sizes, including above the short-list limit",
     "data_buffer_test allocates a few small buffers; interleavings of recycling, clearing and re-use per size class are not sampled.",
     [G + "data_buffer.h", G + "data_buffer.cc", G + "ref_count.h"],
     [("ReferenceCount::DecRef -> OnRefCountIsZero -> DataBufferFactory::Recycle", G + "data_buffer.h"),
      ("DataBufferFactory::Allocate/MakeCopyOf/Clear", G + "data_buffer.cc")],
     [("short_free_list_, free_list_", "free buffers by size", G + "data_buffer.h")],
     ["Allocate", "MakeCopyOf", "IncRef/DecRef", "Get/Set", "Clear"])

prop("C03", "Submitted results reach their destination exactly once at the right cycle",
     "A buffer submitted with latency 0 becomes the value of its destination immediately; with latency "
     "n >= 1 the destination keeps its old value until the n-th following advance of the delay line and "
     "then takes the new one; without a destination the buffer is just released. A register always "
     "holds one reference to the buffer with its current value, starts as zero, and never lets that buffer be "
     "recycled while it is the current value. Writes to a reserved register also release its resource, writes to a control "
     "register invoke only its callback, and a status register ignores writes without consuming the writer's reference; reading one yields bit i exactly as "
     "the function of bit i says (calling, for a masked read, only those of the mask).",
     ["histories", "schedules"],
     "all interleavings of in-flight writes with different latencies to several registers, advances, reads and copies",
     "register tests submit one write at a time; overlapping in-flight writes and buffer recycling are not explored.",
     [G + "data_buffer.cc", G + "data_buffer.h", G + "register.h", G + "register.cc", G + "control_register.cc",
      G + "status_register.h", G + "state_item.h", G + "state_item_base.cc"],
     [("DataBuffer::Submit", G + "data_buffer.cc"), ("RegisterBase::SetDataBuffer", G + "register.cc"),
      ("DataBufferDelayRecord", G + "data_buffer.h")],
     [("data_buffer_", "current value of a register", G + "register.h")],
     ["Submit", "AdvanceDelayLines", "data_buffer()", "CopyDataBuffer"])

prop("C04", "Operands convert values consistently for every type and value",
     "For every source operand (register, immediate, literal, wrapper, status register, FIFO) and every "
     "element value, reading it as a signed or unsigned integer of a given width yields the stored value "
     "truncated to that width, or extended to it: immediates, literals and status registers by the signedness of "
     "their value type, registers by sign when read as signed and by the element type's own signedness when read "
     "as unsigned, FIFOs by sign when read as signed and by zero when read as unsigned. Reading as a "
     "boolean yields whether the value is non-zero; wrapper operands read as zero. Shapes, names and vector indices are reported as constructed.",
     ["inputs"],
     "all element types, all values (corner values exhaustively), all accessors and indices",
     "operand tests use one value per accessor; sign/zero extension corner values are not sampled.",
     [G + "immediate_operand.h", G + "literal_operand.h", G + "register.h", G + "wrapper_operand.h",
      G + "status_register.h", G + "fifo.h", G + "devnull_operand.h", G + "signed_type.h", G + "state_item_base.cc"],
     [("As<Type> accessors", G + "operand_interface.h")], [], ["AsBool..AsUint64", "shape", "AsString"])

prop("C05", "FIFOs deliver every accepted value once, in order, within capacity",
     "A FIFO returns accepted values in the order they were pushed, each exactly once, never holds more than "
     "its capacity (for FIFOs that share a token pool the pool is the limit), and rejects a push into a full FIFO by setting the overflow flag while leaving the contents alone; reads and pops of an "
     "empty FIFO set underflow. Reservations reduce the space reported as available until the next push, accepted or not, consumes one. "
     "FIFOs that share a token pool never hold more values in total than the pool has tokens, each held value owning exactly one token. "
     "Notifying FIFOs call their callbacks exactly when they become non-empty or empty, and an imported depth becomes the capacity.",
     ["histories", "configurations"],
     "all sequences of push/pop/front/reserve/delayed write-back over all capacities and token pool sizes",
     "fifo tests walk one fill/drain sequence; mixing reservations, overflow and shared tokens is not sampled.",
     [G + "fifo.h", G + "fifo.cc", G + "token_fifo.h", G + "token_fifo.cc", G + "fifo_with_notify.h", G + "fifo_with_notify.cc"],
     [("FifoBase::Push/Pop/Reserve", G + "fifo.cc"), ("FifoTokenStore", G + "token_fifo.cc")],
     [("fifo_, reserved_, depth_", "contents and reservations", G + "fifo.h")],
     ["Push", "Pop", "Front", "Reserve", "IsFull/IsEmpty/IsOverflow/IsUnderflow", "Size/Available"])

prop("C06", "Resource sets and pools never double-grant or lose a resource",
     "Bit sets behave as mathematical sets of indices under set, union, difference, intersection test, search, count, "
     "copy, move, assignment and resize, for every index and size. A resource pool reports a resource or a set of resources free iff no "
     "member is currently acquired; acquiring marks exactly the members, releasing frees exactly the members, immediately or "
     "after the operand's latency, and the same name always denotes the same resource.",
     ["histories", "inputs", "configurations"],
     "all sequences of acquire/release/delayed release over all pool widths (crossing 64-bit words) and resource subsets",
     "simple_resource_test and resource_bitset_test use a few fixed indices in one pool.",
     [G + "resource_bitset.h", G + "resource_bitset.cc", G + "simple_resource.h", G + "simple_resource.cc",
      G + "simple_resource_operand.h"],
     [("ResourceBitSet", G + "resource_bitset.cc"), ("SimpleResourcePool", G + "simple_resource.cc")],
     [("resource_vector_", "acquired resources", G + "simple_resource.h")],
     ["IsFree", "Acquire", "Release", "IsOverlap/Contains"])

prop("C07", "Complex resources reserve exactly the requested future cycles",
     "A complex resource is free for a request iff none of the requested future cycles is reserved; acquiring "
     "reserves exactly the requested cycles, releasing frees exactly them, and advancing n cycles shifts every "
     "reservation n cycles closer and frees whatever falls into the past. This holds for every depth (including depths that are "
     "not a multiple of 64) and every number of cycles advanced; malformed cycle masks are rejected without effect.",
     ["histories", "inputs", "configurations"],
     "all sequences of acquire/release/advance over all depths, masks and cycle distances crossing 64-bit words",
     "complex_resource_test uses depth 128 and short advances.",
     [G + "complex_resource.h", G + "complex_resource.cc", G + "complex_resource_operand.h", G + "complex_resource_operand.cc"],
     [("ComplexResource::Acquire/Release/IsFree/Advance", G + "complex_resource.cc"),
      ("ComplexResourceOperand::SetCycleMask", G + "complex_resource_operand.cc")],
     [("bit_array_, mask_array_", "reserved cycles", G + "complex_resource.h")],
     ["IsFree", "Acquire", "Release", "AdvanceWindow"])

prop("C08", "The decode cache always returns the current decoding",
     "GetDecodedInstruction(a) returns an instruction decoded for exactly address a, decoded after the last "
     "invalidation that covers a; repeated lookups without an intervening eviction or invalidation return the same instruction "
     "without decoding again. Invalidating an address, a range or everything drops exactly (at least all) the covered entries, and a dropped "
     "instruction stays alive while somebody still references it and is destroyed otherwise.",
     ["histories", "configurations"],
     "all sequences of lookups and invalidations over all geometries and conflicting addresses",
     "decode_cache_test uses one geometry and a few addresses.",
     [G + "decode_cache.h", G + "decode_cache.cc"],
     [("DecodeCache::GetDecodedInstruction/Invalidate*", G + "decode_cache.cc")],
     [("cache_", "address/instruction pairs", G + "decode_cache.h")],
     ["GetDecodedInstruction", "Invalidate", "InvalidateRange", "InvalidateAll"])

prop("C09", "Instruction objects run their semantics and own their parts correctly",
     "Executing an instruction calls its semantic function exactly once with the instruction itself (and its context) and never that of its children "
     "unless the semantic function asks for it. Operands, resource lists, attributes, children and successors are returned in the order they were "
     "attached; setting another predicate replaces (and releases) the former one. When the last reference to an instruction goes away its operands and children are released exactly once, and instructions still "
     "referenced elsewhere survive.",
     ["histories", "programs"],
     "all shapes of instruction trees, attachment orders and reference histories",
     "instruction_test builds two fixed trees.",
     [G + "instruction.h", G + "instruction.cc"],
     [("Instruction::Execute / AppendChild / ~Instruction", G + "instruction.cc")],
     [], ["Execute", "Source/Destination", "child/next/parent", "DecRef"])

prop("C10", "Program errors are masked, counted and delivered without loss",
     "A raised program error is pending until it is cleared, and is reported as masked or unmasked according to its current mask (masking or unmasking moves a pending error); "
     "the internal simulator error cannot be masked. Names are unique; naming an unknown error, adding an existing one or masking the internal one raises the internal error and changes no other error. "
     "Messages are kept in the order they were raised, and clearing one error (or all) removes exactly its messages.",
     ["histories"],
     "all sequences of add/raise/mask/unmask/clear over several errors",
     "program_error_test exercises each call once.",
     [G + "program_error.h", G + "program_error.cc"],
     [("ProgramErrorController", G + "program_error.cc")], [],
     ["Raise", "Mask/Unmask", "Clear/ClearAll", "HasError/HasMaskedError", "GetUnmaskedErrorNames", "GetErrorMessages"])

prop("C11", "Component trees export and import configuration and counters faithfully",
     "Exporting a component tree yields every registered configuration entry and counter (enabled or not) exactly once at its place in the tree with its current value; importing "
     "a configuration changes exactly the entries it names (type-checked, in document order up to the first error) and invokes their callbacks, and exporting then importing reproduces the values. Names are unique per component; counters "
     "change only through their own operations and only while enabled, and each update reaches every listener exactly once.",
     ["histories", "inputs"],
     "all tree shapes, value types and sequences of registration, update, enable/disable, export and import",
     "component/config/counters tests cover one fixed tree and a value per type.",
     [G + "component.h", G + "component.cc", G + "config.h", G + "counters.h", G + "counters_base.h"],
     [("Component::Export/Import", G + "component.cc"), ("Config<T>", G + "config.h"), ("CounterBase::SetValue", G + "counters.h")],
     [], ["Export", "Import", "Increment/Decrement", "SetValue"])

prop("C12", "Action points and breakpoints fire exactly where they are enabled",
     "When execution stops at an address, exactly the enabled actions registered for that address are performed, once each, also when the actions themselves set, disable or clear (even their own) actions. An address is patched in memory "
     "while and only while it has at least one enabled action, and after the last one is disabled or removed the original instruction is restored. Identifiers are never "
     "reused for two live actions, a breakpoint exists at an address at most once, operations on unknown ids, and operations whose memory write fails, have no effect (clearing everything continues past failures).",
     ["histories"],
     "all sequences of set/clear/enable/disable/clear-all/perform over several addresses and ids, including memory write failures",
     "there is no unit test of the action point manager; the breakpoint manager has none in this build.",
     [G + "action_point_manager_base.h", G + "action_point_manager_base.cc", G + "breakpoint_manager.h", G + "breakpoint_manager.cc"],
     [("ActionPointManagerBase", G + "action_point_manager_base.cc"), ("BreakpointManager", G + "breakpoint_manager.cc")],
     [], ["SetAction", "ClearAction", "EnableAction", "DisableAction", "PerformActions", "SetBreakpoint"])

prop("C13", "Flat memories return the last byte written at every address",
     "For every address inside the memory, a load of any supported width returns, byte for byte, the values most recently stored there (little endian, "
     "the fill value if never written), for scalar, masked vector, strided and gather/scatter accesses crossing any internal block boundary; masked-off elements neither read nor write, "
     "and accesses outside the memory neither change it nor return other locations' data (a FlatMemory access outside, and a store to a FlatDemandMemory outside, is refused fatally; a FlatDemandMemory load outside reads fill). "
     "A vector access with one address accesses consecutive elements from it. A load's data is complete before its "
     "instruction is executed, exactly once, after the load's latency, and the instruction and context live until then and no longer.",
     ["histories", "inputs", "configurations"],
     "all interleavings of scalar/vector loads and stores, all alignments, sizes, bases and fill values",
     "memory tests use fixed aligned patterns.",
     [M + "flat_memory.h", M + "flat_memory.cc", M + "flat_demand_memory.h", M + "flat_demand_memory.cc", M + "memory_interface.h"],
     [("FlatDemandMemory::LoadStoreHelper", M + "flat_demand_memory.cc"), ("FlatMemory::Load/Store", M + "flat_memory.cc")],
     [], ["Load", "Store"])

prop("C14", "Tagged memory keeps tags exactly with the data they protect",
     "A tag read for a granule is set iff the last store overlapping that granule was a full-granule tagged store with that tag set; every untagged store "
     "(scalar or vector, any size and alignment) clears the tags of exactly the granules it writes. Data behaves as in an untagged memory, and combined loads return data and tags of the same locations; tagged requests "
     "that are not granule aligned have no effect. The tagged-to-untagged transactor performs the data access on the untagged memory, reads every tag as zero and completes tag-only loads too.",
     ["histories", "inputs"],
     "all interleavings of tagged and untagged scalar and vector accesses over all alignments and sizes",
     "tagged_flat_demand_memory_test uses a few aligned accesses.",
     [M + "tagged_flat_demand_memory.h", M + "tagged_flat_demand_memory.cc", M + "tagged_to_untagged_memory_transactor.cc"],
     [("TaggedFlatDemandMemory::Store", M + "tagged_flat_demand_memory.cc")], [], ["Load", "Store"])

prop("C15", "Atomic operations are indivisible and reservations are invalidated by stores",
     "Each atomic read-modify-write returns the old value and leaves exactly the value its operation defines, for every operand width and value. A store-conditional succeeds iff the "
     "matching load-linked to that location happened and no store, store-conditional or read-modify-write through this memory to any byte of its granule intervened; a failed one leaves memory unchanged, and the reported result says which happened. "
     "(Naturally aligned atomics of 1, 2, 4 and 8 bytes; other sizes are refused without effect.) All other accesses behave as on the memory underneath.",
     ["histories", "inputs"],
     "all interleavings of LL/SC, AMOs and plain/vector stores over several granules, all operations and operand values",
     "atomic_memory_test runs each operation once with one value.",
     [M + "atomic_memory.h", M + "atomic_memory.cc", M + "atomic_tagged_memory.h", M + "atomic_tagged_memory.cc"],
     [("AtomicMemory::PerformMemoryOp", M + "atomic_memory.cc")], [("tag set", "granules with a live reservation", M + "atomic_memory.h")],
     ["PerformMemoryOp", "Store", "Load"])

prop("C16", "Memory watchers see every matching access and change none",
     "A load or store watch callback is called exactly once for each access (scalar access, or enabled vector element) that overlaps its range, with the address and size of that access, and never otherwise; "
     "store callbacks run when the store happens, load callbacks when the load is issued. The watched memory's behaviour is identical with and without watchers, and overlapping watch ranges are refused.",
     ["histories", "inputs"],
     "all sets of watch ranges and sequences of scalar and vector accesses",
     "memory_watcher_test has a few fixed ranges.",
     [M + "memory_watcher.h", M + "memory_watcher.cc", M + "tagged_memory_watcher.h", M + "tagged_memory_watcher.cc"],
     [("MemoryWatcher::Load/Store", M + "memory_watcher.cc")], [], ["SetLoadWatchCallback", "SetStoreWatchCallback", "Load", "Store"])

prop("C17", "Routers send each access to the one target that owns its address range",
     "Every access whose bytes lie entirely in a mapped range is performed once, unmodified, on exactly the target mapped there (with the interface the access needs); an access that touches no mapped range goes to the default target if there is one; "
     "an access that is only partly in a mapped range, or a vector access whose elements belong to different targets, affects no target. Untagged accesses are served by plain and by tagged targets (plain ones first), tagged and atomic ones only by targets of their kind. "
     "Mappings never overlap: adding an overlapping or empty one is refused and leaves the map unchanged (adding the same range again is ignored), as are mappings of unknown initiators or targets and duplicate target names.",
     ["histories", "inputs", "configurations"],
     "all maps of ranges (adjacent, nested, one-byte) and all scalar, vector, tagged and atomic accesses including ones that straddle boundaries",
     "router tests check a few addresses well inside ranges.",
     [M + "single_initiator_router.h", M + "single_initiator_router.cc", M + "memory_router.h", M + "memory_router.cc"],
     [("SingleInitiatorRouter::Load/Store/PerformMemoryOp", M + "single_initiator_router.cc"), ("MemoryRouter", M + "memory_router.cc")],
     [], ["AddTarget/AddDefaultTarget", "Load", "Store"])

prop("C18", "The cache model is transparent and accounts every access once",
     "Memory contents and load results seen through the cache equal those without it. Every cache block touched by an access is counted exactly once as a hit or a miss, according to whether its line is resident in a set-associative LRU cache of the configured size, block size and "
     "associativity with the configured allocation policy (and write-back and dirty accounting to match); accesses outside the cacheable ranges (or touching non-cacheable ones) are only counted as non-cacheable. "
     "An invalid configuration is refused and leaves the cache as it was.",
     ["histories", "configurations"],
     "all access sequences over all geometries, policies and cacheable ranges",
     "cache_test runs a handful of accesses on a few geometries.",
     [M + "cache.h", M + "cache.cc"],
     [("Cache::CacheLookup / ReplaceBlock", M + "cache.cc")], [("cache_lines_", "valid/dirty/tag/lru/pinned", M + "cache.h")],
     ["Load", "Store", "counters"])

prop("C19", "Bit-field extraction recipes gather exactly the masked bits",
     "For every 64-bit mask, the generated extraction recipe applied to any value yields the value's bits at the mask's one-positions packed contiguously from bit 0 in order, and nothing else; the C++ "
     "statements written for the recipe of a non-zero mask compute the same result.",
     ["inputs"],
     "all masks and values",
     "extract tests use a few masks and values.",
     [D + "extract.h", D + "extract.cc"], [("GetExtractionRecipe/ExtractValue/WriteExtraction", D + "extract.cc")], [],
     ["GetExtractionRecipe", "ExtractValue", "WriteExtraction"])

prop("C20", "Template expressions evaluate to the same value however they are instantiated",
     "Evaluating an expression tree against template arguments gives an expression whose value is the arithmetic value of the tree with each parameter replaced by its argument, including nested instantiation with arguments that are "
     "themselves unresolved; a tree without parameters is constant, copies are independent, the original is unchanged. Division by zero, unbound or out-of-range parameters and failing functions are reported as errors (when evaluating or when taking the value) at every nesting, never as a value or a crash, as long as all intermediate values fit an int.",
     ["programs", "inputs"],
     "all expression trees, argument lists and nesting of instantiations",
     "template_expression_test evaluates trees of depth one or two.",
     [D + "template_expression.h", D + "template_expression.cc"],
     [("TemplateExpression::Evaluate/GetValue/DeepCopy", D + "template_expression.cc")], [], ["GetValue", "Evaluate", "IsConstant", "DeepCopy"])

prop("C21", "Generated names and the resource registry are deterministic and unique",
     "Each resource name denotes one resource object for the lifetime of its factory: creating it twice is refused, getting it creates it at most once, lookups never change its attributes, and its generated identifier "
     "is the Pascal-case form of its name. Pascal-case, snake-case, lower-case, header-guard and indent conversions follow their character-wise rules for every input.",
     ["histories", "inputs"],
     "all sequences of create/get and attribute changes, all strings",
     "resource_test uses two names; format_name has no test in this build.",
     [D + "resource.h", D + "resource.cc", D + "format_name.h", D + "format_name.cc"],
     [("ResourceFactory", D + "resource.cc"), ("ToPascalCase etc.", D + "format_name.cc")], [],
     ["CreateResource", "GetOrInsertResource", "resource_map", "ToPascalCase"])

prop("C22", "Floating-point classification and conversion are bit-exact for every encoding",
     "For half, single and double precision, and for integers holding their encodings, exactly one of infinite, NaN or finite is reported as IEEE 754 defines it from the bits, NaNs are split into signalling and quiet by the top fraction bit, and the sign is the top bit. "
     "Converting half to single preserves the value of every non-NaN encoding (including subnormals, zeros and infinities, with sign) and maps NaN to a NaN of the same sign.",
     ["inputs"],
     "all 2^16 half encodings; all classes and boundary encodings of single and double",
     "type_helpers has no test.",
     [G + "type_helpers.h"], [("FPTypeInfo<T>", G + "type_helpers.h"), ("ConvertHalfToSingle", G + "type_helpers.h")], [],
     ["IsInf", "IsNaN", "IsSNaN", "IsQNaN", "SignBit", "ConvertHalfToSingle"])


prop("C23", "A generated decoder decodes every instruction word exactly as its description says",
     "For every well-formed .bin_fmt description the generated decoder maps each instruction word to the instruction whose field and overlay constraints the word satisfies (or to the matching specialisation of it, with the format it was declared for), and to none if no instruction matches; it never depends on bits the constraints do not mention. "
     "Descriptions with an inconsistent layout (field widths that do not add up, overlays of the wrong width, unknown names, values that do not fit) are refused instead of producing a decoder.",
     ["inputs"],
     "random descriptions (formats of 5 to 64 bits, inheritance, overlays with constant bits, ==, !=, <, <=, >, >= constraints on fields and between fields, specialisations, overlapping and malformed descriptions); all words up to 10 bits, boundary words above",
     "The tests compare a few generated lines or decode a few words of one description.",
     [D + "bin_format_visitor.cc", D + "encoding_group.cc", D + "instruction_group.cc", D + "instruction_encoding.cc", D + "format.cc", D + "overlay.cc", D + "BinFormat.g4"],
     [("EncodingGroup::AddSubGroups, EmitDecoders", D + "encoding_group.cc"), ("InstructionEncoding::AddEqualConstraint, AddOtherConstraint", D + "instruction_encoding.cc"),
      ("BinFormatVisitor", D + "bin_format_visitor.cc"), ("Overlay::GetBitField, AddBitConstant", D + "overlay.cc")],
     [("encoding groups", "instructions grouped by the bits that tell them apart", D + "encoding_group.cc")],
     ["generated Decode<Group> and Decode<Group>WithFormat", "errors reported by the generator"])

prop("C24", "Generated field extractors, inserters and opcode encodings agree with the described layout",
     "For every format of up to 64 bits the generated extractor of a field, overlay or sub-format returns exactly the described bits (constants included, sign extended if signed) of any instruction word; the inserter replaces exactly those bits and no others, so that extracting returns what was inserted; names that mean different bits in different formats are never shared. "
     "The encoding emitted for an opcode has exactly the bits its constraints fix, and decodes to that opcode.",
     ["inputs"],
     "random descriptions with formats of 7 to 64 bits, derived formats that redefine names, repeated sub-formats, signed fields and overlays with constants; random and extreme words and values, sequences of insertions and extractions",
     "The tests check the shape of the generated text for a handful of formats.",
     [D + "format.cc", D + "overlay.cc", D + "bin_format_visitor.cc", D + "bin_encoding_info.cc", D + "instruction_encoding.cc"],
     [("Format::GenerateExtractors, GenerateInserters", D + "format.cc"), ("Overlay::WriteSimpleValueExtractor, WriteComplexValueExtractor", D + "overlay.cc"),
      ("Format::PropagateExtractorsUp/Down", D + "format.cc")],
     [], ["generated Extract<Name>, Insert<Name>", "generated kOpcodeEncodings"])

prop("C25", "Renode and the command line share a core without losing or adding work",
     "While a command line is connected, Renode's quanta are spent only on what the command line asks for: no instruction is executed outside a quantum or beyond its budget, Renode's call returns the whole quantum, and control returns to the waiting side when it is used up. "
     "A command-line Step(n) executes exactly n instructions unless the core halts by itself, however the quanta divide them; Run continues until a halt; Halt stops a run and reports the reason; queries see a core at rest. Nobody waits for ever. Disconnecting gives Renode its quanta back.",
     ["schedules", "histories"],
     "all interleavings of Renode's and the command line's calls at lock granularity up to a bounded length on the specification; random schedules of long histories on the code, with cores that halt at given instructions or finish",
     "There are no tests of this code; its behaviour depends on the interleaving of two threads.",
     ["mpact/sim/util/renode/renode_cli_top.cc", "mpact/sim/util/renode/renode_cli_top.h", "mpact/sim/util/renode/cli_forwarder.cc"],
     [("RenodeCLITop::RenodeStep, CLIStep, CLIRun, CLIHalt, DoWhenInControl", "mpact/sim/util/renode/renode_cli_top.h"), ("CLIForwarder", "mpact/sim/util/renode/cli_forwarder.cc")],
     [("renode_steps_to_take_, cli_steps_to_take_", "the rest of the quantum and of the request", "mpact/sim/util/renode/renode_cli_top.h")],
     ["RenodeCLITop::RenodeStep", "RenodeCLITop::CLIStep, CLIRun, CLIWait, CLIHalt", "calls made on the core"])


prop("C26", "Profilers count every use exactly once",
     "A memory-use profiler forwards every access unchanged and marks exactly the words that an enabled access of its kind touched (instruction fetches, loads, stores; scalar, vector and gather/scatter with masks); the written profile lists exactly the maximal ranges of touched words. "
     "An instruction profiler counts, for every instruction of its ranges, exactly the executions sampled while it was enabled, and nothing for other addresses.",
     ["histories", "inputs"],
     "all sequences of accesses, address-map changes and enables, over the whole 64-bit address space",
     "The tests profile a handful of aligned accesses in one segment.",
     [M + "memory_use_profiler.h", M + "memory_use_profiler.cc", "mpact/sim/util/other/instruction_profiler.h", "mpact/sim/util/other/instruction_profiler.cc"],
     [("MemoryUseTracker, MemoryUseProfiler, TaggedMemoryUseProfiler", M + "memory_use_profiler.cc"), ("InstructionProfiler", "mpact/sim/util/other/instruction_profiler.cc")],
     [("segments of used words", "one bit per word", M + "memory_use_profiler.h")],
     ["WriteUseProfile, WriteProfile", "data returned by accesses"])

prop("C27", "The Renode C interface addresses exactly the simulator an id names",
     "Every call of the C interface concerns exactly the simulator with the given id: ids are never shared by two live simulators, connected simulators share their core, calls with unknown ids fail without an effect. Step executes the instructions asked for unless the core stops, and reports the number executed and why it stopped; "
     "registers, memory and configuration are passed through unchanged, and accesses over Renode's bus transfer each byte once, in order, and complete once at their latency.",
     ["histories"],
     "all sequences of calls with several simulators, stops at every position for every reason, bus callbacks that are missing or short",
     "There are no tests of this code.",
     ["mpact/sim/util/renode/renode_mpact.cc", "mpact/sim/util/renode/renode_mpact.h", "mpact/sim/util/renode/renode_memory_access.cc"],
     [("RenodeAgent", "mpact/sim/util/renode/renode_mpact.cc"), ("RenodeMemoryAccess", "mpact/sim/util/renode/renode_memory_access.cc")],
     [("core_dbg_instances_", "simulators by id", "mpact/sim/util/renode/renode_mpact.h")],
     ["construct, connect, destruct, step, read_/write_register, read_/write_memory"])

prop("C28", "The UART transmits each byte written, once and in order",
     "What a SimpleUart has transmitted is exactly the sequence of bytes stored to its transmit register while the divisor latch was closed; the divisor, interrupt-enable, line-control and scratch registers read back what was last stored to them, other registers read zero, accesses that are not of aligned words have no effect, and each load completes once at its latency.",
     ["histories"],
     "all sequences of loads and stores of any size and offset",
     "The test stores one line and toggles a few registers.",
     ["mpact/sim/util/other/simple_uart.cc", "mpact/sim/util/other/simple_uart.h"],
     [("SimpleUart::Load/Store/Read/Write", "mpact/sim/util/other/simple_uart.cc")], [("registers", "dll dlm ier lcr scr", "mpact/sim/util/other/simple_uart.h")],
     ["output stream", "loaded values"])


prop("C29", "Semantic helpers and the architecture state apply every write once, to the right state, at its time",
     "An instruction built with the Unary/Binary/Ternary (vector) helpers reads each source element converted to the argument type when it executes and writes exactly its destination, element by element, converted to the result type, visible after the destination's latency and not before. "
     "In an ArchState a name denotes one register (fifo) until it is removed, whatever aliases are added; all its delay lines advance together once per cycle, in the order they were added; what its tables refer to is destroyed with it exactly once.",
     ["histories", "inputs"],
     "all programs of helper-based instructions over signed/unsigned scalar and vector registers and immediates; all sequences of registrations, aliases, removals, scheduled calls and writes",
     "The helpers' tests use one type combination per form; ArchState has few tests.",
     [G + "instruction_helpers.h", G + "arch_state.h", G + "arch_state.cc", G + "register.h", G + "instruction.h"],
     [("UnaryOp, BinaryOp, *VectorOp", G + "instruction_helpers.h"), ("ArchState::AddRegister, RemoveRegister, AdvanceDelayLines", G + "arch_state.h"), ("~ArchState", G + "arch_state.cc")],
     [("registers_, fifos_, delay_lines_", "tables by name and the delay lines", G + "arch_state.h")], ["register contents after AdvanceDelayLines", "registers(), fifos()", "destructors run"])

prop("C30", "Loading an ELF file puts every loadable byte in its place and answers symbol queries for that file",
     "LoadProgram writes the file contents of each loadable segment, and nothing else, at its physical (or, if zero, virtual) address in the memory selected for it (code/data by executability, the first matching descriptor, or the debug interface), returns the entry point, and reports files that are missing or malformed and writes that fail. "
     "Symbol, function-at-address, function-covering-address and stack-size queries answer from the file loaded last: a function is reported for exactly the addresses some function symbol covers.",
     ["inputs", "histories"],
     "all files with segments and (overlapping, empty, duplicate) symbols, all loader configurations, sequences of loads and queries",
     "The tests load one fixed executable once.",
     ["mpact/sim/util/program_loader/elf_program_loader.cc", "mpact/sim/util/program_loader/elf_program_loader.h"],
     [("ElfProgramLoader::LoadProgram, LoadSymbols", "mpact/sim/util/program_loader/elf_program_loader.cc"), ("GetFunctionName", "mpact/sim/util/program_loader/elf_program_loader.cc")],
     [("function_range_map_, fcn_symbol_map_", "functions by address", "mpact/sim/util/program_loader/elf_program_loader.h")], ["memory contents", "GetSymbol, GetFcnSymbolName, GetFunctionName, GetStackSize"])


prop("C31", "The assembler places every statement, label and reference where the source says",
     "SimpleAssembler puts the bytes of directives and instructions one after the other in their section, independently of comments, spacing, continued lines and the order of sections; a label is the place of what follows it. "
     "CreateExecutable puts text, data and bss at their (aligned, disjoint) addresses, replaces every reference, forward or backward, by the address of its label, and sets the entry point; CreateRelocatable lists a relocation for each reference, against the right section and symbol. "
     "Symbols appear once, locals first, with their section, value and binding. Malformed statements, duplicate or misplaced labels, undefined symbols of executables and values out of reach are reported, and never yield an ELF file.",
     ["inputs"],
     "all programs of directives, labels and (a small set of) instructions in any order and spelling, both ELF classes, executables and relocatable files",
     "The test assembles a few fixed programs.",
     ["mpact/sim/util/asm/simple_assembler.cc", "mpact/sim/util/asm/simple_assembler.h", "mpact/sim/util/asm/resolver.cc"],
     [("SimpleAssembler::Parse, ParsePassTwo, ParseAsmDirective", "mpact/sim/util/asm/simple_assembler.cc"), ("CreateExecutable, CreateRelocatable", "mpact/sim/util/asm/simple_assembler.cc")],
     [("section_address_map_", "place of the next statement of each section", "mpact/sim/util/asm/simple_assembler.h"), ("symbol_indices_", "symbols", "mpact/sim/util/asm/simple_assembler.h")], ["section contents, segments, entry point", "symbol table and relocation sections"])

prop("C32", "Generated ISA decoders build the instruction the .isa file describes",
     "For every slot entry, opcode and encoding, the decoder generated from an .isa file builds an Instruction with the opcode's (or default) size, one child per operand list, the operands of the encoding in the order written with the described latencies, the semantic functions, the attribute values, the resources to be free and to be held over the described cycles, and the disassembly text with its operand values, addresses, shifts and widths. "
     "Templated slots, inheritance, deleted and overridden opcodes, defaults, constants, GENERATE and included files mean what they expand to. Malformed descriptions are reported and generate nothing; the code generated for the others compiles.",
     ["inputs"],
     "all .isa descriptions of slots, templates, inheritance and opcodes with operands, resources, attributes and formats; every opcode of them in every slot entry",
     "The tests check error messages and that files are written for a few descriptions; no generated decoder is compiled or run.",
     ["mpact/sim/decoder/instruction_set_visitor.cc", "mpact/sim/decoder/instruction_set.cc", "mpact/sim/decoder/slot.cc", "mpact/sim/decoder/opcode.cc", "mpact/sim/decoder/resource.cc", "mpact/sim/decoder/template_expression.cc", "mpact/sim/decoder/InstructionSet.g4"],
     [("InstructionSetVisitor::Process, VisitSlotDeclaration, ProcessOpcodeGenerator", "mpact/sim/decoder/instruction_set_visitor.cc"), ("Slot::GenerateClassDefinition, GenerateDisassemblySetter, GenerateResourceSetter", "mpact/sim/decoder/slot.cc"), ("InstructionSet::GenerateClassDefinitions, ComputeSlotAndBundleOrders, AnalyzeResourceUse", "mpact/sim/decoder/instruction_set.cc")],
     [("instruction_map_", "opcodes of a slot, inherited and own", "mpact/sim/decoder/slot.h"), ("resource_factory", "simple and complex resources", "mpact/sim/decoder/instruction_set.h")], ["generated decoder files", "decoded Instructions"])
prop("C33", "Generated assemblers encode a line as the opcode whose format it has",
     "For every slot of an .isa description, the generated assembler encodes a line that has the disassembly format of exactly one opcode the encoder can encode: it asks the encoder for the opcode and, once each and in the order of the formats, for every operand text with its operand, number, slot, entry, address and resolver, combines the answers, and appends the relocations of that opcode's relocatable operands only. "
     "Lines that have the format of no opcode, whose operands cannot be encoded, or that are ambiguous are errors; white space around operands and punctuation and omitted optional operands are accepted as described. The generated code compiles.",
     ["inputs"],
     "all .isa descriptions with formats, optional, relocatable and list operands; lines of every opcode, with other spacing and with mistakes",
     "No test compiles or runs a generated encoder.",
     ["mpact/sim/decoder/slot.cc", "mpact/sim/decoder/instruction_set.cc", "mpact/sim/decoder/instruction_set_visitor.cc", "mpact/sim/decoder/format_name.cc"],
     [("Slot::GenerateAsmRegexMatcher, GenerateRegEx, GenerateOperandEncoder", "mpact/sim/decoder/slot.cc"), ("InstructionSet::GenerateEncClasses", "mpact/sim/decoder/instruction_set.cc")],
     [("operand_info_", "where operands are", "mpact/sim/decoder/slot.h")], ["encoding, size and relocations returned", "questions to the encoder", "errors"])

prop("C34", "The GDB server speaks the remote serial protocol about one program",
     "In every session of GdbServer, each well-formed packet is acknowledged (unless the session turned acknowledgements off) and answered by one reply that is repeated until it is acknowledged, at most five times; packets with wrong checksums are refused and change nothing. "
     "Replies to memory, register, breakpoint, continue, step, vCont, query and transfer packets state what the core did: data read is what was written, stops are reported with the reason, address and thread, errors and unsupported packets are answered as such, and the program is run only by packets that run it. Malformed or oversized packets, unknown threads and addresses, hang-ups and new connections never crash the server or affect a later session.",
     ["inputs", "histories"],
     "all sequences of sessions and packets, well-formed and not, for all register files and target descriptions",
     "Tests send one packet of a few kinds each in one session.",
     ["mpact/sim/util/gdbserver/gdbserver.cc", "mpact/sim/util/gdbserver/gdbserver.h", "mpact/sim/generic/debug_info.h", "mpact/sim/generic/core_debug_interface.h"],
     [("GdbServer::Connect, AcceptGdbCommand, Respond", "mpact/sim/util/gdbserver/gdbserver.cc"), ("GdbServer::ParseGdbCommand and the Gdb... handlers", "mpact/sim/util/gdbserver/gdbserver.cc")],
     [("no_ack_mode_, thread_select_, halt_reasons_", "what the session negotiated and why threads stopped", "mpact/sim/util/gdbserver/gdbserver.h")], ["packets sent to the client", "calls on the core"])

prop("C35", "Socket streams and the socket command line transfer text faithfully and end cleanly",
     "A SocketStreambuf delivers the bytes its peer sent in order (dropping a carriage return in favour of what follows it) and sends what is written, a line feed as carriage return and line feed; "
     "once the connection has ended or broken, reads report the end of the file and writes fail, without ending the process. A SocketCLI reports through its callback and good() exactly when a client is connected, "
     "serves the client's lines to the shell and the shell's output to the client until either side ends the session, can be destroyed at any time, and closes exactly its own file descriptors, once.",
     ["inputs", "histories"],
     "all byte sequences, and all orders of connecting, talking, hanging up, aborting and destroying",
     "there are no tests of either class.",
     ["mpact/sim/util/renode/socket_streambuf.h", "mpact/sim/util/renode/socket_cli.cc", "mpact/sim/util/renode/socket_cli.h"],
     [("SocketStreambuf::underflow / overflow", "mpact/sim/util/renode/socket_streambuf.h"), ("SocketCLI::SocketCLI / ~SocketCLI", "mpact/sim/util/renode/socket_cli.cc")],
     [("good_, cli_fd_", "state of the session", "mpact/sim/util/renode/socket_cli.h")],
     ["characters read and written", "is_connected_cb", "good", "open file descriptors"])


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             observe_at=list(p["observe"]), hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if p["claimed"] and os.path.exists(V + "/props/%s.py" % p["id"]):
            checks.append(dict(
                property=p["id"],
                quick_cmd="python3 check.py %s" % p["id"],
                thorough_cmd="VERIF_TIER=thorough python3 check.py %s thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique="TLA+ specification checked by TLC, bound to the code by replay of every "
                          "bounded behaviour and by trace validation",
                level="model_checking",
                level_note=p["note"] or
                "Exhaustive within the stated constants on the specification; every transition of the bounded "
                "model is replayed in the real code (ASan/UBSan build) and recorded random executions are "
                "validated by TLC. Trusts TLC, the harness projection and, for files outside the pinned "
                "build, the abseil logging stand-ins in shim/."))
        else:
            na.append(dict(property=p["id"], reason=p["reason"] or "check under construction"))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
             notes="TLA+ with TLC. No hooks are compiled into the repository. See DESIGN.md.")
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "claimed")


if __name__ == "__main__":
    main()
