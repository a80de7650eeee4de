// The repository follows a newer clang, whose diagnostics take their options by
// reference; clang 20's own them.
#ifndef VERIF_TDP
#define VERIF_TDP
#include <clang/Frontend/TextDiagnosticPrinter.h>
namespace clang {
struct PrinterByReference : TextDiagnosticPrinter {
  PrinterByReference(llvm::raw_ostream &os, DiagnosticOptions &o) : TextDiagnosticPrinter(os, new DiagnosticOptions(o)) {}
};
struct EngineByReference : DiagnosticsEngine {
  EngineByReference(llvm::IntrusiveRefCntPtr<DiagnosticIDs> ids, DiagnosticOptions &o, DiagnosticConsumer *c)
      : DiagnosticsEngine(std::move(ids), new DiagnosticOptions(o), c) {}
};
} // namespace clang
#define TextDiagnosticPrinter PrinterByReference
#define DiagnosticsEngine EngineByReference
#endif
