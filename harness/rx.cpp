/* The regular expression compiler behind the query automata, driven by text descriptions.
 * Request: jv_F[1] = pipeline ("s" SetConverter, "e" ECSetConverter), jv_F[2] = input_max, jv_F[3] = definitions,
 * jv_F[4..] = rules until a field "--", then words (symbol bytes).
 * Rule text (prefix): [P name , name ;] item;   definitions: item ; item ; ... (each may refer to earlier ones)
 *   Cn;o   char n       Shex;o  set with that text     Qhex;o  literal with that text
 *   L...)o sequence     A...)o  alternatives           Rk;o    definition k
 * with o one of . ? * +
 * Reply: rules, starts, input_max; per word: accept status of every rule's own automaton after every prefix, then for
 * every start state the rule reported by the combined automaton and by its tables after every prefix. */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>
#include <set>
#include "pass.hpp"
#include "Lexer/dfa_compressed.hpp"
#include "Lexer/ecset_converter.hpp"
#include "Lexer/regex_builder.hpp"
#include "Lexer/model_core.hpp"
#include "Lexer/dfa_mixer.hpp"
#include "Lexer/set_converter.hpp"
#include "Lexer/regex_model.hpp"
#include "dragontooth.h"
using namespace dragontooth;
extern "C" { void jv_rx_i32(int v); void jv_rx_flush(void); void jv_cmd_rx_fields(char **jv_F, uint32_t *jv_FL, int jv_NF); }

static RegexRefMapper *jv_mapper;
static std::vector<std::string> *jv_keep;
static std::string jv_hex(const char *&p) {
    std::string r;
    while (*p && *p != ';') { char b[3] = {p[0], p[1], 0}; r += (char)strtol(b, 0, 16); p += 2; }
    ++p; return r;
}
static RegexItem *jv_opt(RegexItem *i, const char *&p) {
    char c = *p++;
    if (c == '?') i->setOpt(RegexItem::re_optional);
    else if (c == '*') i->setOpt(RegexItem::re_repetition);
    else if (c == '+') i->setOpt(RegexItem::re_nonzero_repetition);
    return i;
}
static RegexItem *jv_item(const char *&p) {
    char k = *p++;
    if (k == 'C') { regex_char c = strtoul(p, (char **)&p, 10); ++p; return jv_opt(new RegexChar(c), p); }
    if (k == 'S') { jv_keep->push_back(jv_hex(p)); return jv_opt(new RegexSet(jv_keep->back().c_str()), p); }
    if (k == 'Q') { jv_keep->push_back(jv_hex(p)); return jv_opt(new RegexList(jv_keep->back().c_str()), p); }
    if (k == 'L' || k == 'A') {
        RegexList *l = new RegexList(k == 'A');
        while (*p != ')') l->Add(jv_item(p));
        ++p; return jv_opt(l, p);
    }
    if (k == 'R') { std::string n; while (*p != ';') n += *p++; ++p; return jv_opt(jv_mapper->Find(n), p); }
    _Exit(93);
}
void jv_cmd_rx_fields(char **jv_F, uint32_t *jv_FL, int jv_NF) {
    jv_mapper = new RegexRefMapper(); jv_keep = new std::vector<std::string>(); jv_keep->reserve(10000);
    int nd = 0;
    for (const char *p = jv_F[3]; *p; ) { RegexItem *i = jv_item(p); jv_mapper->Define(std::to_string(nd++), i); if (*p == ';') ++p; }
    RegexModel *model = new RegexModel();
    model->input_max = atoi(jv_F[2]);
    int f = 4; std::set<std::string> pre;
    for (; f < jv_NF && strcmp(jv_F[f], "--"); f++) {
        const char *p = jv_F[f]; std::set<std::string> names;
        if (*p == 'P') { ++p; while (*p != ';') { std::string n; while (*p != ',') n += *p++; ++p; names.insert(n); } ++p; }
        model->Add(jv_item(p));
        model->at(model->size() - 1)->prerequisites = names;
        for (auto &n : names) if (n != "default") pre.insert(n);
    }
    ++f;
    Pass *start = jv_F[1][0] == 'e' ? (Pass *)new ECSetConverter() : (Pass *)new SetConverter();
    start->next(new RegexBuilder())->next(new DFAMixer());
    start->ExecuteAll<RegexModel>(model);
    DFACompressed *m = (DFACompressed *)model->main_dfa;
    DTLexerState *lx = dtl_Create();
    lx->m_base = m->m_base.data(); lx->m_next = m->m_next.data(); lx->m_check = m->m_check.data(); lx->m_default = m->m_default.data();
    lx->m_stop_state = m->getStopState().data(); lx->bottom = m->getBottom();
    int R = model->size(), S = 1 + (int)pre.size();
    jv_rx_i32(R); jv_rx_i32(S); jv_rx_i32(model->input_max);
    for (; f < jv_NF; f++) {
        std::vector<int> w;
        for (uint32_t i = 0; i < jv_FL[f]; i++) { int c = (unsigned char)jv_F[f][i]; w.push_back(model->ec ? (int)model->ec->getClass(c) : c); }
        for (int r = 0; r < R; r++) {
            DFA *d = model->at(r)->dfa; int s = 1;
            for (int c : w) { s = s && c ? d->nextState(s, c) : 0; jv_rx_i32(s ? d->isStopState(s) != 0 : 0); }
        }
        for (int b = 1; b <= S; b++) {
            int s = b;
            for (int c : w) { s = m->nextState(s, c); jv_rx_i32(s ? m->isStopState(s) : 0); }
            s = b;
            for (int c : w) { s = c < 128 ? (int)dtl_nextState(lx, s, (char)c) : m->nextState(s, c); jv_rx_i32(s ? dtl_isStopState(lx, s) : 0); }
        }
    }
    jv_rx_flush();
    dtl_Free(lx);
}
