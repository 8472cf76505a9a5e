// C02: structured control flow, locals and the operand stack.
#include "progcheck.h"
static bool ctl(const Stats &s) { return s.branches > 0 || s.loops > 0 || s.op.count(0x04) || s.op.count(0x1b) || s.op.count(0x20); }
static void control(Ctx &x) {
  GenCfg g; g.w_block = 14; g.w_loop = 5; g.w_br = 14; g.w_brtable = 6; g.w_dead = 8; g.w_select = 6; g.w_return = 3; g.w_mem = 3; g.w_call = 3; g.w_bulk = 0; g.w_grow = 0; g.budget = 120; g.nfuncs = 3;
  ProgOpt o; o.ncalls = 6; program_case(x, g, o, [](const Stats &s) { return s.branches > 0; });
}
static void mixed(Ctx &x) { GenCfg g; ProgOpt o; o.nmods = x.c.pct(25) ? 2 : 1; program_case(x, g, o, ctl); }
static void locals(Ctx &x) {
  GenCfg g; g.w_local = 40; g.maxlocals = x.c.pct(20) ? 120 : 24; g.maxparams = 12; g.w_loop = 4; g.w_br = 8; g.w_mem = 2; g.w_bulk = 0; g.w_grow = 0; g.w_table = 1; g.budget = 150; g.nfuncs = 3; g.w_call = 6; g.w_select = 6;
  ProgOpt o; o.ncalls = 6; program_case(x, g, o, ctl);
}
static void big(Ctx &x) {                          // large functions: long jumps, deep nesting, many values
  GenCfg g; g.budget = 1500; g.nfuncs = 2; g.w_block = 10; g.w_br = 8; g.maxlocals = 40; g.nglobals = 10; g.w_brtable = 5;
  ProgOpt o; o.ncalls = 3; program_case(x, g, o, ctl);
}
int main(int argc, char **argv) {
  CheckDef d{"C02", "a case is non-trivial when at least one generated call that executes local accesses, selects or branches (family control: at least one taken branch) completed in the model and in compiled code and results, host-call trace, globals, memories and tables were compared; identity is the module bytes and arguments"};
  d.fams = {{"control", control, 300000, 6000000, 100}, {"mixed", mixed, 300000, 6000000, 100}, {"locals", locals, 200000, 4000000, 100}, {"big", big, 16000, 300000, 25}};
  d.assumptions = {"executions that trap in the specification are not generated (PWART does not trap)", "block types given by type index are refused (documented)"};
  return check_main(d, argc, argv);
}
