#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed).
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=hook
    P.append(d)

prop("C01","Numeric and conversion operators compute the WebAssembly result",
 "For every numeric, comparison, sign-extension, reinterpretation and conversion operator of the supported instruction set, and for all operand values for which the WebAssembly specification does not trap (and, for the saturating truncations, that are in range), the compiled code produces exactly the value the specification gives, bit for bit, with any NaN allowed where the specification leaves NaN payloads open. The result does not depend on where the operands come from (constant, parameter, local, operand stack, memory or a preceding call) nor on what consumes the result.",
 ["inputs","programs"],"all operators x all operand bit patterns (trap-free) x all operand sources and result uses",
 "The repository's tests sample each operator with a handful of fixed operands, nearly always parameters; immediates, spilled operands, fused comparisons and edge operands (negative zero, NaN, INT_MIN, shift counts beyond the width) are not enumerable by hand.",
 ["pwart/opgen_num.c","pwart/extfunc.c","pwart/opgen_utils.c","pwart/opgen_misc.c","sljit/sljit_src/sljitNativeX86_64.c","sljit/sljit_src/sljitNativeX86_common.c"],
 [("opgen_GenCompareOp / opgen_GenArithmeticOp / opgen_GenConvertOp","pwart/opgen_num.c"),("insn_* helper functions","pwart/extfunc.c"),("lazily evaluated operand descriptors (immediate, register, memory, flag)","pwart/opgen_utils.c")],
 ["results stored on the run-time stack by pwart_call_wasm_function"])

prop("C02","Structured control flow, locals and the operand stack behave as specified",
 "Every valid function built from blocks, loops, ifs, branches (br, br_if, br_table, return), locals, select, drop and operators returns the results, leaves the global state and performs the host calls that the WebAssembly specification prescribes, for every trap-free execution. This holds for any nesting, any live operand-stack content across control structures, dead code, values carried by branches, and any number and type of locals, which start at zero unless that is switched off.",
 ["programs","inputs"],"all valid functions within the documented limits (operand stack depth, single-result block types) x all trap-free inputs",
 "tests/control.wat holds about ten fixed functions; correctness of a one-pass compiler depends on the combination of register allocation, spill state and control flow at each point, which only a generator of whole programs reaches.",
 ["pwart/opgen_ctl.c","pwart/opgen_utils.c","pwart/wagen.c","pwart/opgen_mem.c"],
 [("block stack with saved operand-stack height and patch lists","pwart/opgen_ctl.c"),("spilling of lazily evaluated operands before control transfers","pwart/opgen_utils.c pwart_EmitSaveStackAll"),("use-before-set scan for zero-initialised locals","pwart/wagen.c pwart_PrepareFunc")],
 ["results and host-call trace of pwart_call_wasm_function"])

prop("C03","Linear memory behaves as specified",
 "Every load and store (all widths, signs, static offsets and alignment hints), memory.size, memory.grow, memory.copy and memory.fill on every memory of a module (several memories, with or without a declared maximum, imported or own, 32-bit or 64-bit indexed) reads and writes exactly the bytes the WebAssembly specification prescribes, for every access inside the current memory size. Bytes already in a memory survive growth, new pages read zero, growth beyond the maximum reports -1 and changes nothing, and the host sees the same bytes and page count through the exported memory.",
 ["inputs","programs","histories"],"all in-bounds access sequences over all memory shapes, interleaved with growth by the module, by callees and by other modules",
 "The tests use one memory with small fixed addresses; histories that interleave growth, cached base addresses, calls, several memories and overlapping copies are unbounded.",
 ["pwart/opgen_mem.c","pwart/extfunc.c","pwart/modparser.c","pwart/opgen_utils.c","pwart/wagen.c"],
 [("memory base cached in a register and reloaded after calls","pwart/opgen_utils.c pwart_EmitCallFunc2"),("effective address computation","pwart/opgen_mem.c opgen_GenBaseAddressReg"),("memory.grow helper","pwart/extfunc.c insn_memorygrow"),("allocation of fixed and growable memories","pwart/modparser.c")],
 ["pwart_get_export_memory contents and page count","load results"])

prop("C04","Globals, tables and references behave as specified",
 "global.get/set, table.get/set/size/copy/fill, ref.null, ref.func, ref.is_null, call_indirect through any table and element segments implement the WebAssembly semantics for every in-bounds access, for own, imported and exported globals and tables of every element type. Whatever one module or the host writes to a shared global or table entry is what every other party reads next, and calling through a table slot runs exactly the function last placed in that slot.",
 ["inputs","programs","histories"],"all in-bounds operation histories over own/imported globals and tables, several tables, several modules",
 "The tests touch one table and a few globals with fixed values; aliasing between modules, overlap of copies, second tables and stale lazily-read values need generated histories.",
 ["pwart/opgen_mem.c","pwart/opgen_misc.c","pwart/opgen_ctl.c","pwart/modparser.c","pwart/extfunc.c"],
 [("absolute addresses of globals and table entries embedded in code","pwart/opgen_mem.c"),("element segment initialisation and fix-up to code pointers","pwart/modparser.c")],
 ["pwart_get_export_global / pwart_get_export_table contents","results"])

prop("C05","Calls follow the documented stack calling convention for every signature",
 "For every function signature within the documented limits, arguments a caller puts on the stack (in order, with the documented size and alignment rules) arrive unchanged in the callee, and results appear in order at the position where the arguments started - host to wasm, wasm to host, wasm to wasm, direct, indirect, recursive and tail calls alike. A call does not disturb the caller's other operands and locals nor memory outside the stack area it owns, tail calls run in constant stack space, and the stack helper functions lay out and read back any sequence of typed values consistently with that convention.",
 ["inputs","programs","configurations"],"all signatures (parameter/result types, order, count) x values x call kinds x caller stack contents",
 "Tests use a dozen signatures with at most a few parameters; alignment padding, multi-value permutations and argument aliasing depend on the exact mix of 4- and 8-byte types and on what is live in the caller.",
 ["pwart/opgen_utils.c","pwart/opgen_ctl.c","pwart/pwart.c","include/pwart.h"],
 [("pwart_EmitCallFunc2, pwart_EmitFuncReturn, pwart_EmitFuncEnter","pwart/opgen_utils.c"),("pwart_rstack_put_*/get_*, pwart_allocate_stack","pwart/pwart.c")],
 ["argument values seen by host functions","result values read from the stack buffer","guard bytes around the stack buffer"])

prop("C06","Compile configuration changes layout and cost, never results",
 "For every valid module and trap-free execution, every combination of the documented stack and miscellaneous compile flags yields the same results, memory, global and table contents and the same sequence of host calls, as long as one configuration is used consistently. (With zero-initialisation of locals switched off this is claimed for programs that write every local before reading it.)",
 ["configurations","programs","inputs"],"all flag combinations x valid modules x inputs",
 "The tests run almost everything under a single configuration.",
 ["pwart/opgen_utils.c","pwart/opgen_mem.c","pwart/wagen.c","pwart/pwart.c","include/pwart.h"],
 [("pwart_gcfg consulted during code generation","pwart/opgen_utils.c"),("use-before-set scan","pwart/wagen.c"),("pwart_set_global_compile_config","pwart/pwart.c")],
 ["results across configurations"])

prop("C07","A loaded module is exactly the module its bytes encode",
 "After a successful load, every export is found under its exact name and kind and no other name or kind resolves; memories, tables and globals have the encoded sizes and initial contents, with active data and element segments and constant expressions (including extended ones and imported globals) applied; the start function is the encoded one. The outcome is the same for every legal re-encoding of the same module (padded LEB128 numbers, custom sections anywhere, different type/segment flag encodings), and the input bytes are never modified or needed after loading.",
 ["inputs","programs"],"all well-formed modules within the documented limits and all their legal binary encodings",
 "Tests load only what wat2wasm emits for ten files, so non-minimal encodings, other segment flavours, long names and unusual section mixes never occur.",
 ["pwart/modparser.c","pwart/util.c","pwart/extfunc.c","pwart/pwart.c","pwart/wagen.c"],
 [("load_module section parser","pwart/modparser.c"),("read_LEB/read_string","pwart/util.c, pwart/modparser.c"),("waexpr_run_const","pwart/extfunc.c")],
 ["pwart_get_export_*","pwart_inspect_module_state","pwart_get_start_function"])

prop("C08","Unsupported or unresolvable modules are refused cleanly",
 "Loading a well-formed module that uses an unsupported feature, exceeds a documented limit (name lengths, parameter/result counts) or imports something that cannot be resolved or is too small returns an error message and no module. A refusal corrupts nothing and leaks nothing: modules loaded before stay fully usable, no memory is misused, and the same process can load and run further modules.",
 ["inputs","fault_sequences","histories"],"all modules with one unsupported/unresolvable element at any position, interleaved with loads of good modules",
 "No existing test loads a module that must be refused; the failure can occur at any section or function index, and the clean-up differs at each.",
 ["pwart/modparser.c","pwart/pwart.c","pwart/wagen.c","pwart/namespace.c"],
 [("error returns through ReturnIfErr","pwart/util.c"),("free_module / free_runtimectx on failure","pwart/modparser.c"),("pwart_load_module, pwart_namespace_define_wasm_module","pwart/pwart.c, pwart/namespace.c")],
 ["err_msg and returned module","sanitizer reports","behaviour of other modules afterwards"])

prop("C09","Namespaces link, share, replace and notify consistently",
 "After any history of defining, redefining, finding and removing host and wasm modules in a namespace, a lookup or an import resolves to exactly the symbol the most recently defined live module of that name provides for that field and kind, and otherwise the import fails; imported memories, tables, globals and functions are shared with, not copied from, the exporter. Each host module gets exactly one attach notification when added and exactly one detach notification when removed, replaced or when its namespace is deleted, with its namespace pointer set.",
 ["histories","inputs"],"all histories of namespace operations over several namespaces, names and module kinds",
 "Tests define two or three modules once and never remove, replace or re-import; ordering, name reuse and callback counts are history properties.",
 ["pwart/namespace.c","pwart/modparser.c","pwart/pwart.c"],
 [("module list with tombstones","pwart/namespace.c"),("namespace_SymbolResolve, get_export","pwart/namespace.c, pwart/modparser.c"),("on_attached/on_detached","pwart/namespace.c")],
 ["pwart_namespace_find_module, import results, callback log"])

prop("C10","Every resource is released exactly once, in any release order",
 "For every history of creating and freeing compilers, modules, namespaces, host modules and stacks that respects the documented ownership, nothing is freed twice or used after being freed, and once everything has been released no heap or executable memory remains allocated. Freeing the compiler never affects a module compiled with it, and removing or freeing one module never affects another that does not depend on it.",
 ["histories"],"all ownership-respecting create/compile/run/free histories, including failed compilations",
 "Tests load modules and mostly exit; they observe neither leaks nor use-after-free and use one order.",
 ["pwart/modparser.c","pwart/namespace.c","pwart/pwart.c","pwart/util.c","pwart/wagen.c","sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c"],
 [("free_module, free_runtimectx","pwart/modparser.c"),("pool and dynarr containers","pwart/util.c"),("pwart_namespace_delete / remove_module","pwart/namespace.c")],
 ["AddressSanitizer/LeakSanitizer reports, executable mappings"])

prop("C11","The pwart_builtin host library behaves as documented",
 "Every symbol of the pwart_builtin module, imported and called from any module with any documented arguments, has the documented type and effect: native memory allocation and access, reference and integer casts, byte copy and string length, stdio, host definitions, context, and loading, unloading and importing modules at run time within the caller's namespace. Calls through the embedded fast paths and ordinary calls give the same values.",
 ["inputs","histories","programs"],"all documented argument values and call histories of the builtin symbols",
 "The existing tests call most builtins once with one argument, and never test error results.",
 ["pwart/extfunc.c","pwart/opgen_misc.c","pwart/pwart.c","pwart/hostdef.c","include/pwart.h"],
 [("insn_* builtin implementations","pwart/extfunc.c"),("inlined stub functions","pwart/opgen_misc.c pwart_CheckAndGenStubFunction"),("pwart_get_builtin_symbols","pwart/pwart.c")],
 ["results of calls from wasm, files on disk, namespace contents"])

prop("C12","Instances are isolated, reproducible and safe to call from several threads",
 "Two instances loaded from the same or different bytes share no memory, table, global or user data unless they import it, so operations on one never change what another computes. The same module with the same inputs and call history always produces the same results, whatever other modules were loaded, run or freed before or between, and instances used by different threads on different stacks behave as if each ran alone.",
 ["histories","programs","schedules"],"all interleavings of operations on several instances, sequential and on separate threads",
 "Every existing test works with one instance at a time on one thread.",
 ["pwart/modparser.c","pwart/pwart.c","pwart/wagen.c","pwart/extfunc.c"],
 [("RuntimeContext per module","pwart/def.h"),("addresses of per-instance state embedded in generated code","pwart/opgen_mem.c")],
 ["results, memory and globals of each instance compared with a solo run"])

prop("C13","sljit operations compute what the LIR reference says",
 "For every sequence of sljit integer, floating-point, conversion, flag, select, shift, overflow, multiply/divide, load/store, compare and jump instructions with any allowed combination of register, immediate and memory operands, the generated machine code leaves the registers and memory that the documented semantics of those instructions give. Registers, saved registers and memory that an instruction does not name as destination keep their value.",
 ["programs","inputs"],"all instruction sequences x operand kinds x values on the host back end",
 "sljit's own tests are fixed instruction sequences with fixed values; encodings differ per register, immediate range and addressing form, far beyond those samples.",
 ["sljit/sljit_src/sljitLir.h","sljit/sljit_src/sljitLir.c","sljit/sljit_src/sljitNativeX86_common.c","sljit/sljit_src/sljitNativeX86_64.c"],
 [("sljit_emit_* front end","sljit/sljit_src/sljitLir.c"),("x86-64 encoder","sljit/sljit_src/sljitNativeX86_common.c")],
 ["registers and memory after running the generated code"])

prop("C14","A serialized sljit compiler resumes to identical code",
 "For every compiler state, saving it with sljit_serialize_compiler at any point between two instructions, restoring it and continuing with the same instructions yields code that behaves identically to the uninterrupted compilation, with all labels, jumps, constants and mov-addresses intact. A truncated buffer, or one whose signature, version or debug state does not match, is refused without a crash.",
 ["programs","crash_points"],"all instruction sequences x all cut points",
 "The sljit tests serialise about ten fixed compilers at one fixed point.",
 ["sljit/sljit_src/sljitSerialize.c","sljit/sljit_src/sljitLir.c"],
 [("sljit_serialize_compiler / sljit_deserialize_compiler","sljit/sljit_src/sljitSerialize.c")],
 ["generated code bytes and results"])

prop("C15","The executable allocator never hands out overlapping or stale memory",
 "For every history, by one thread or several, of allocating and freeing executable blocks through the code generator, live blocks are disjoint, hold the bytes last written to them and stay executable, and freed space is merged and reused; freeing everything and releasing unused memory returns it all to the system. Freeing one block never changes another.",
 ["histories"],"all allocation/free histories with any block sizes",
 "The sljit allocator test runs one fixed pattern.",
 ["sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c","sljit/sljit_src/allocator_src/sljitExecAllocatorPosix.c","sljit/sljit_src/sljitUtils.c"],
 [("boundary-tag free list with chunk release","sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c")],
 ["addresses and contents of live code blocks, behaviour of generated functions"])

prop("C16","The bundled regex compiler matches exactly the documented language",
 "For every pattern in the documented syntax, with any flags, and every subject supplied at once or in any number of chunks, the regex JIT reports a match exactly when the input supplied so far contains one (anchored where the pattern or flags say so), and reports the one with the smallest begin, then the longest (with the non-greedy flag the shortest) end, then the highest term id; when it says a match is finished, no further input changes the result, and a reset match behaves like a new one. Patterns outside the syntax are refused with the invalid-expression error, and a refused memory request gives the memory error with everything released and no crash.",
 ["inputs","fault_sequences"],"all patterns x subjects x chunkings x flags; any one refused memory request",
 "The regex tests list about a hundred fixed pattern/subject pairs and almost no chunked input.",
 ["sljit/regex_src/regexJIT.c","sljit/regex_src/regexJIT.h"],
 [("regex_compile","sljit/regex_src/regexJIT.c"),("regex_continue_match, regex_get_result","sljit/regex_src/regexJIT.c")],
 ["match bounds from regex_get_result"])

prop("C17","The libffi and libuv bindings pass values through unchanged",
 "A native function called through the ffi binding receives exactly the arguments the wasm caller supplied and its result comes back unchanged, for every signature of supported types; a wasm function exported as a native callback likewise sees the native caller's arguments and its own user data each time it is called, at any depth of nesting, and returns its result. The libuv functions for locks, conditions, threads and dynamic libraries behave for a wasm caller like the library call they are named after, and everything the bindings allocate is released by the matching delete call.",
 ["inputs","histories","schedules"],"all signatures and values of the ffi types; all call histories of callbacks, locks, threads and libraries",
 "tests/syslibtest1 calls a single ffi function with fixed arguments and is not part of the buildable test suite here.",
 ["pwart_syslib/libffi.c","pwart_syslib/libuv.c","pwart_syslib/util.c"],
 [("argument conversion between run-time stack and ffi values","pwart_syslib/libffi.c"),("libuv wrappers","pwart_syslib/libuv.c")],
 ["values seen by native functions and callbacks"])

prop("C18","The WASI bindings and the system library hand calls through unchanged",
 "Every WASI preview 1 function a wasm program calls reaches the WASI library exactly once with the values the program gave, addresses translated into the program's memory (scatter lists entry by entry), and its error code and output come back unchanged; arguments and environment appear in memory as WASI lays them out. Over any history of initializing, loading into and unloading from namespaces, the modules can be imported exactly while they are loaded, the WASI instance is destroyed exactly once, and everything is released. The command line program passes on its arguments, runs the start function and then _start, and fails cleanly when the file cannot be run.",
 ["inputs","histories"],"all argument values, memory contents and lists of the 46 WASI functions; all load/unload/initialize histories; all command lines",
 "No existing test builds these bindings or the command line program; the values that matter (high addresses, long lists, 64-bit offsets) are unbounded.",
 ["pwart_syslib/libwasi.c","pwart_syslib/pwart_syslib.c","pwart_syslib/wasiexec.c"],
 [("WASI wrappers and instance life cycle","pwart_syslib/libwasi.c"),("pwart_syslib_load / pwart_syslib_unload","pwart_syslib/pwart_syslib.c"),("command line program","pwart_syslib/wasiexec.c")],
 ["calls seen by the WASI library","wasm memory","symbols resolvable in a namespace"])

prop("C19","sljit vector and atomic operations compute what the LIR reference says",
 "For every sequence of sljit vector (SIMD) instructions - load, store, replicate, lane moves, lane replication, widening loads, sign collection, and/or/xor/shuffle - with any allowed register, immediate or (aligned and unaligned) memory operand, each supported form computes what its documentation says and leaves every other register, memory byte and the flags unchanged; forms reported unsupported emit nothing. An atomic load and store pair replaces the memory cell exactly when the cell still holds the expected value, says so in the flag, touches no neighbouring byte, and loses no update when several threads use the same cell.",
 ["programs","inputs","schedules"],"all instruction sequences x register sizes x element sizes x operand kinds x values on the host back end; all interleavings of atomic updates",
 "sljit's own tests run each vector instruction on a few fixed registers and values, mostly aligned, and atomics on one thread.",
 ["sljit/sljit_src/sljitLir.h","sljit/sljit_src/sljitNativeX86_common.c","sljit/sljit_src/sljitNativeX86_64.c"],
 [("sljit_emit_simd_*","sljit/sljit_src/sljitNativeX86_common.c"),("sljit_emit_atomic_load / sljit_emit_atomic_store","sljit/sljit_src/sljitNativeX86_common.c")],
 ["vector registers, general registers, flags and memory after running the generated code"])

prop("C20","sljit memory contract: stacks, allocator data, refused allocations, buffers",
 "A sljit stack reserves page-aligned room for its maximum size, keeps every byte between start and end and every pointer into it through any history of resizes (even when the system drops the pages given back), refuses out-of-range resizes and allocations leaving everything as it was, and releases all of it when freed. Compilers used side by side do not influence each other, pass their own allocator data to every allocation and release, keep blocks from sljit_alloc_memory intact, and write code only inside the buffer they are given. When any allocation is refused the compiler reports the documented error from that call on, produces no code and, once freed, leaves nothing behind.",
 ["histories","faults","inputs"],"all histories of stack operations and sizes; all programs x fragment boundaries x refused allocations x interleavings of compilers x code buffer sizes",
 "sljit's own tests use a handful of stack sizes and never refuse memory; dropped pages are only visible under memory pressure.",
 ["sljit/sljit_src/sljitUtils.c","sljit/sljit_src/sljitLir.c","sljit/sljit_src/sljitLir.h","sljit/sljit_src/sljitSerialize.c","sljit/sljit_src/sljitNativeX86_common.c"],
 [("sljit_allocate_stack / sljit_stack_resize / sljit_free_stack","sljit/sljit_src/sljitUtils.c"),("sljit_create_compiler / sljit_free_compiler / sljit_alloc_memory / ensure_buf","sljit/sljit_src/sljitLir.c"),("sljit_generate_code","sljit/sljit_src/sljitNativeX86_common.c"),("sljit_deserialize_compiler","sljit/sljit_src/sljitSerialize.c")],
 ["stack fields and contents, compiler errors, machine code and outstanding memory after any history"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import sys
print(len(P)); 
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    import re
    n=len(re.findall(r"\.(?:\s|$)",p["statement"]))
    if n>3: print("sentences",p["id"],n)
