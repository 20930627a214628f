"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("SocketStreambuf", "C35"), ("SocketCLI", "C35"), ("gdbserver", "C34"), ("generated encoders", "C33"), ("generated assemblers", "C33"), ("syntax errors in instructions generated", "C23"), ("slot instances compiles", "C32"), ("arrays of complex resources", "C32"), ("acquire complex resources", "C32"), ("number operands", "C32"), ("second child instruction", "C32"), ("default size of their slot", "C32"), ("setter functions", "C32"), ("attributes without a value", "C32"), ("invalid attribute expressions", "C32"), ("constants can be used in opcode", "C32"), ("base slots can be overridden", "C32"), ("inheritance errors", "C32"), ("in shift expressions", "C32"), ("resource cycles of templated", "C32"), ("latencies of child", "C32"), ("slots that inherit", "C32"), ("formats of the instruction address", "C32"), ("invalid resource expressions", "C32"), ("keep the tokens", "C32"), ("in opcodes generated", "C32"),
       ("ElfProgramLoader", "C30"), ("SimpleAssembler", "C31"), ("MemoryUseTracker", "C26"), ("WriteUseProfile", "C26"), ("memory use profilers", "C26"), ("InstructionProfiler", "C26"), ("RenodeAgent", "C27"), ("SimpleUart", "C28"),
       ("DelayLine::Resize", "C01"), ("DataBufferFactory::Clear", "C02"), ("newly allocated DataBuffer", "C03"),
       ("RegisterBase::SetDataBuffer", "C03"), ("StatusRegister::SetDataBuffer", "C03"), ("TemplateNegate", "C20"),
       ("FPTypeInfo", "C22"), ("ResourceBitSet", "C06"), ("SimpleResourceOperand", "C06"), ("ComplexResource", "C07"),
       ("Fifo", "C05"), ("DecodeCache", "C08"), ("Instruction", "C09"), ("Component", "C11"), ("Counter", "C11"), ("Config", "C11"),
       ("actions may change", "C12"), ("predicate that is replaced", "C09"), ("ActionPoint", "C12"), ("Breakpoint", "C12"), ("TaggedFlat", "C14"), ("TaggedToUntagged", "C14"), ("FlatMemory", "C13"),
       ("FlatDemand", "C13"), ("Atomic", "C15"), ("Watcher", "C16"), ("Router", "C17"), ("Cache", "C18"),
       ("decoders for several encoding groups", "C23"), ("unconditional instructions with special", "C23"), ("numbers in encoding descr", "C23"),
       ("encoding constraints on fields", "C23"), ("decoders keep same-named", "C23"), ("overlay extractors are well", "C24"), ("extractors are only shared", "C24"),
       ("extractors of repeated", "C24"), ("inserters of repeated", "C24"), ("overlay inserters", "C24"), ("fields and overlays may be 64", "C24"),
       ("conflict among derived formats", "C24"),
       ("CLIForwarder", "C25"), ("halt during RenodeStep", "C25")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for ln in log.splitlines():
    h, _, subj = ln.partition(" ")
    if not subj.startswith("fix:"):
        continue
    pid = next((p for k, p in MAP if k in subj), None)
    if pid is None:
        raise SystemExit("no property for " + subj)
    fixed.append("fixed: property=%s %s %s" % (pid, h, subj[5:]))
p = V + "/known_findings.json"
d = json.load(open(p))
d["fixed"] = fixed
json.dump(d, open(p, "w"), indent=1)
print(len(fixed), "fixed,", len(d["findings"]), "open")
