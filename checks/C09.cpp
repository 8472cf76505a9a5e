// C09: namespaces link, share, replace and notify consistently.
#include "nsworld.h"
int main(int argc, char **argv) {
  CheckDef d{"C09", "a history is non-trivial when it defines at least three modules and redefines or removes at least one name; distinctness by the text of the history"};
  d.fams = {{"histories", histories, 60000, 2000000, 100}};
  d.assumptions = {"a module whose imported objects were freed with their exporter is not used afterwards (ownership is the host's)", "a removed name may still be found as an entry of type PWART_MODULE_TYPE_NULL, as the header documents"};
  return check_main(d, argc, argv);
}
