// Feeds texts to the real lexer of the standard grammar and prints the tokens and notices it emits.
// stdin: one text per line, hex bytes ("-" for the empty text).  stdout, per text:
//   T <token definition> <hex text> <line> <column> <keyword>
//   N <notice code> <hex message> <line> <column>
//   .
#include "core.h"
#include <iostream>
using namespace Core;

static std::string hex(char const *s) {
  static char const *d = "0123456789abcdef";
  std::string r;
  for (; *s; ++s) { r += d[(unsigned char)*s >> 4]; r += d[*s & 15]; }
  return r.empty() ? "-" : r;
}

static void onToken(Data::Token const *t) {
  std::cout << "T " << ID_GENERATOR->getDesc(t->getId()).getBuf() << " " << hex(t->getText().getBuf()) << " "
            << t->getSourceLocation().line << " " << t->getSourceLocation().column << " " << (t->isKeyword() ? 1 : 0) << "\n";
}

static void onNotice(SharedPtr<Notices::Notice> const &n) {
  auto sl = n->getSourceLocation().s_cast_get<Data::SourceLocationRecord>();
  std::cout << "N " << n->getCode().getBuf() << " " << hex(n->getDescription().getBuf()) << " "
            << (sl ? (int)sl->line : -1) << " " << (sl ? (int)sl->column : -1) << "\n";
}

int main() {
  Main::RootManager root;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::string text;
    if (line != "-") for (size_t i = 0; i + 1 < line.size(); i += 2) text += (char)std::stoi(line.substr(i, 2), 0, 16);
    Processing::Lexer lexer;
    lexer.initialize(root.getRootScope());
    Slot<void, Data::Token const*> ts(onToken);
    Slot<void, SharedPtr<Notices::Notice> const&> ns(onNotice);
    lexer.tokenGenerated.connect(ts);
    lexer.noticeSignal.connect(ns);
    Data::SourceLocationRecord sl;
    sl.filename = "f"; sl.line = 1; sl.column = 1;
    try {
      lexer.handleNewString(text.c_str(), sl);
      lexer.handleNewChar(FILE_TERMINATOR, sl);
    } catch (Srl::Exception &e) {
      std::cout << "X\n";
    }
    std::cout << ".\n";
  }
  return 0;
}
