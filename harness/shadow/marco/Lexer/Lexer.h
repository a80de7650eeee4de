// Stands for marco/Lexer/Lexer.h in the symbolic build of the parser: the token
// stream is supplied by the harness, so that token kinds are solver variables.
// The replay uses the real lexer on the text of the same tokens.
#ifndef MARCO_LEXER_LEXER_H
#define MARCO_LEXER_LEXER_H
#include "marco/Lexer/Location.h"
#include "llvm/ADT/StringRef.h"
#include <functional>
#include <memory>

namespace marco::lexer {
template <typename Token> struct TokenTraits {
  using Id = typename Token::UnknownTokenTypeError;
};
template <typename StateMachine> class Lexer {
public:
  using Token = typename StateMachine::Token;
  explicit Lexer(std::shared_ptr<SourceFile>) {}
  Token scan();
};
} // namespace marco::lexer
#endif
