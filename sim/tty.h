// The terminal (or pipe) the command-line debugger reads its lines from.
//
// The real line editor (src/dbg-cli/utility/linenoise.c) runs; its system calls on the terminal end
// here. The simulator presses keys, one at a time and on demand, until a reference editor holds the
// line that is to be entered, and keeps the screen as a terminal would. Whenever the editor waits for
// a key, the screen must show the reference editor's line and cursor.
#pragma once
#include <errno.h>
#include <stdio.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <unistd.h>
#include <deque>
#include <functional>
#include <optional>
#include <string>
#include <vector>
#include "core.h"

namespace sim::tty {
constexpr size_t LINE = 4095;        // longest line the editor takes
constexpr size_t HISTORY = 100;      // lines kept, with the one being edited

struct Screen {
    size_t cols = 80;
    std::string row; size_t at = 0; bool wrap = false;
    std::string esc; bool inEsc = false;
    std::deque<char> reply;
    void put(char ch) {
        if (inEsc) {
            esc += ch;
            if (esc.size() == 1) { if (ch != '[') inEsc = false; return; }
            if (ch >= '@' && ch <= '~') { inEsc = false; command(); }
            return;
        }
        switch (ch) {
        case 27: inEsc = true; esc.clear(); return;
        case '\r': at = 0; wrap = false; return;
        case '\n': row.clear(); wrap = false; return;
        default:
            if (wrap) { row.clear(); at = 0; wrap = false; }
            if (row.size() <= at) row.resize(at + 1, ' ');
            row[at] = ch;
            if (at + 1 < cols) ++at; else wrap = true;
        }
    }
    void command() {
        char k = esc.back();
        size_t n = esc.size() > 2 ? (size_t)strtoul(esc.c_str() + 1, nullptr, 10) : 0;
        bool given = esc.size() > 2;
        switch (k) {
        case 'K': if (n == 0 && row.size() > at) row.resize(at); wrap = false; break;
        case 'C': at = std::min(cols - 1, at + (n ? n : 1)); wrap = false; break;      // 0 counts as 1
        case 'D': n = n ? n : 1; at = at > n ? at - n : 0; wrap = false; break;
        case 'H': at = 0; wrap = false; break;
        case 'J': row.clear(); break;
        case 'n': if (given && n == 6) for (char c : "\x1b[24;" + std::to_string(at + 1) + "R") reply.push_back(c); break;
        default: break;
        }
    }
};

struct Tty {
    enum Kind { Term, Dumb, Pipe };
    Run& r;
    Kind kind;
    std::function<void(const std::string&, const std::string&)> fail;      // does not return
    Screen screen;
    enum { Known, Unknown, Zero } columns = Known;
    termios orig{}, cur{};
    bool hung = false;
    uint32_t eintrPct = 0;
    std::deque<char> keys;
    FILE* real = nullptr; FILE* in = nullptr;
    // the reference editor
    std::string buf; size_t pos = 0;
    std::vector<std::string> hist; size_t idx = 0;
    // the line in progress
    std::string prompt;
    std::optional<std::string> want;
    bool last = false, editing = false, entered = false;
    uint32_t noise = 0, finish = 0;
    size_t target = 0, pressed = 0;
    size_t keysPressed = 0, lines = 0, recalled = 0;
    std::string echo;
    std::string pipe; bool broken = false, unterminated = false;

    Tty(Run& r, Kind k) : r(r), kind(k) {
        orig.c_iflag = BRKINT | ICRNL | IXON; orig.c_oflag = OPOST | ONLCR; orig.c_cflag = CS8 | CREAD; orig.c_lflag = ECHO | ICANON | ISIG | IEXTEN;
        orig.c_cc[VMIN] = 1;
        cur = orig;
        if (kind == Dumb) setenv("TERM", r.ch.chance(S_CFG, 1, 2) ? "dumb" : "emacs", 1);
        else if (r.ch.chance(S_CFG, 1, 2)) setenv("TERM", "xterm", 1); else unsetenv("TERM");
        if (kind == Term) {
            if (r.ch.chance(S_CFG, 1, 2)) eintrPct = 1 + r.ch.choose(S_CFG, 20);
            columns = r.ch.chance(S_CFG, 1, 4) ? (r.ch.choose(S_CFG, 2) ? Zero : Unknown) : Known;
        }
        cookie_io_functions_t f{};
        f.read = [](void* c, char* b, size_t n) -> ssize_t { return ((Tty*)c)->pull(b, n); };
        in = fopencookie(this, "r", f);
        real = stdin; stdin = in;
    }
    ~Tty() { close(); }
    void close() { if (in) { stdin = real; fclose(in); in = nullptr; } unsetenv("TERM"); }

    uint32_t c(uint32_t n) { return r.ch.choose(S_CMD, n); }
    bool pr(uint32_t a, uint32_t b) { return r.ch.chance(S_CMD, a, b); }

    // ------------------------------------------------------------ one line
    // `w` is to be entered at this prompt; nothing: the input ends here (`l`: for good).
    void begin(const std::string& p, std::optional<std::string> w, bool l) {
        prompt = p; want = std::move(w); last = l; editing = true; entered = ended = false; pressed = 0;
        if (kind != Term) {
            pipe.clear();
            if (want) { pipe = *want; if (last) unterminated = true; else pipe += "\n"; }
            else if (pr(1, 2)) { broken = true; for (uint32_t i = c(30); i > 0; --i) pipe += (char)(' ' + 1 + c(94)); r.say("(input breaks after \"" + pipe + "\")"); ++r.count["fault.input_error"]; }
            else ++r.count["fault.end_of_input"];
            return;
        }
        checkCooked("at the prompt");
        static const uint16_t w8[] = {80, 80, 132, 40, 24, 16, 10, 7};
        size_t n = w8[c(8)];
        if (pr(1, 6)) n = 1 + c((uint32_t)prompt.size() + 4);
        screen = Screen();
        screen.cols = n;
        keys.clear();
        buf.clear(); pos = 0; idx = 0;
        if (hist.size() == HISTORY) hist.erase(hist.begin());
        hist.push_back("");
        noise = 0;
        if (pr(1, 2)) { noise = 1 + c(12); if (pr(1, 6)) noise += c(60); }
        finish = c(5);
        if (!want) { static const uint32_t how[] = {0, 1, 2, 3}; finish = last ? how[c(4)] : c(2); }
        // a line in the history is fetched from there
        target = 0;
        if (want && hist.size() > 1 && finish == 4)
            for (size_t i = 1; i < hist.size(); ++i) if (hist[hist.size() - 1 - i] == *want) { target = i; break; }
    }
    void end(const char* got) {
        if (want && !got) fail("line lost", "the line \"" + *want + "\" was entered, the debugger sees the end of its input");
        if (!want && got) fail("line not entered", "the input ended, the debugger executes \"" + std::string(got) + "\"");
        if (want && *want != got) fail("other line", "the line \"" + *want + "\" was entered, the debugger executes \"" + std::string(got) + "\"");
        editing = false;
        ++lines;
        echo += kind == Term ? "\n" : kind == Dumb ? prompt : "";
        if (kind == Term) {
            if (want && !entered) fail("line not entered", "the debugger does not wait for Enter and executes \"" + *want + "\"");
            if (!hung) checkCooked("when the line is executed");
            hist.pop_back();
            if (want) keep(*want);
        }
    }
    // Entered lines are kept, blank ones and repeats are not.
    void keep(const std::string& l) {
        bool sub = prompt.size() > 4 && prompt.substr(prompt.size() - 4) == ": > ";
        if (l.empty() || (!sub && l.find_first_not_of(" \t\n\v\f\r") == l.npos)) return;
        if (!hist.empty() && hist.back() == l) return;
        if (hist.size() == HISTORY) hist.erase(hist.begin());
        hist.push_back(l);
    }
    void checkCooked(const std::string& when) {
        if (memcmp(&cur, &orig, sizeof cur)) fail("terminal mode", when + " the terminal is not in its own mode");
    }
    // What the output of a command starts with: the line editor's newline, or the prompt where it does not edit.
    std::string strip(const std::string& out) {
        std::string pre;
        std::swap(pre, echo);
        if (out.compare(0, pre.size(), pre)) fail("newline", "what a command prints starts on the line of the prompt");
        return out.substr(pre.size());
    }

    // ------------------------------------------------------------ keys
    enum Key { Char, Enter, CtrlA, CtrlB, CtrlC, CtrlD, CtrlE, CtrlF, CtrlH, CtrlK, CtrlL, CtrlN, CtrlP, CtrlT, CtrlU, CtrlW, Back, Up, Down, Left, Right, Home, End, Delete, HomeO, EndO };
    void press(Key k, char ch = 0) {
        static const char* code[] = {"", "\r", "\1", "\2", "\3", "\4", "\5", "\6", "\10", "\13", "\14", "\16", "\20", "\24", "\25", "\27", "\177", "\33[A", "\33[B", "\33[D", "\33[C", "\33[H", "\33[F", "\33[3~", "\33OH", "\33OF"};
        static const char* name[] = {"", "Enter", "Ctrl-A", "Ctrl-B", "Ctrl-C", "Ctrl-D", "Ctrl-E", "Ctrl-F", "Ctrl-H", "Ctrl-K", "Ctrl-L", "Ctrl-N", "Ctrl-P", "Ctrl-T", "Ctrl-U", "Ctrl-W", "Backspace", "Up", "Down", "Left", "Right", "Home", "End", "Delete", "Home", "End"};
        ++keysPressed; ++pressed;
        if (k == Char) keys.push_back(ch); else for (auto p = code[k]; *p; ++p) keys.push_back(*p);
        if (k == Enter && (cur.c_iflag & ICRNL)) keys.back() = '\n';
        if (r.verbose && prompt.size() + buf.size() < 300) r.say("  key " + (k == Char ? std::string(1, ch) : std::string(name[k])));
        auto insert = [&] { if (buf.size() < LINE) { buf.insert(pos, 1, ch); ++pos; } };
        auto recall = [&](int d) {
            if (hist.size() < 2) return;
            hist[hist.size() - 1 - idx] = buf;
            if ((d < 0 && idx == 0) || (d > 0 && idx + 1 == hist.size())) return;
            idx += d;
            buf = hist[hist.size() - 1 - idx]; pos = buf.size();
            ++recalled;
        };
        switch (k) {
        case Char: insert(); break;
        case Enter: entered = true; break;
        case CtrlA: case Home: case HomeO: pos = 0; break;
        case CtrlE: case End: case EndO: pos = buf.size(); break;
        case CtrlB: case Left: if (pos) --pos; break;
        case CtrlF: case Right: if (pos < buf.size()) ++pos; break;
        case CtrlD: case Delete: if (pos < buf.size()) buf.erase(pos, 1); break;
        case CtrlH: case Back: if (pos) buf.erase(--pos, 1); break;
        case CtrlK: buf.erase(pos); break;
        case CtrlU: buf.clear(); pos = 0; break;
        case CtrlT: if (pos && pos < buf.size()) { std::swap(buf[pos - 1], buf[pos]); if (pos + 1 != buf.size()) ++pos; } break;
        case CtrlW: { size_t e = pos; while (pos && buf[pos - 1] == ' ') --pos; while (pos && buf[pos - 1] != ' ') --pos; buf.erase(pos, e - pos); break; }
        case CtrlP: case Up: recall(1); break;
        case CtrlN: case Down: recall(-1); break;
        case CtrlC: case CtrlL: break;
        }
    }
    void noisy() {
        static const Key ks[] = {CtrlA, CtrlB, CtrlE, CtrlF, CtrlH, CtrlK, CtrlL, CtrlN, CtrlP, CtrlT, CtrlU, CtrlW, Back, Up, Down, Left, Right, Home, End, Delete, HomeO, EndO, Left, Left, Up, Up, Back};
        if (pr(3, 5)) { press(Char, pr(1, 5) ? ' ' : (char)(33 + c(94))); return; }
        if (!buf.empty() && pr(1, 20)) { press(CtrlD); return; }
        press(ks[c(sizeof ks / sizeof *ks)]);
    }
    void next() {
        if (noise) { --noise; noisy(); return; }
        if (!want) {
            switch (finish) {
            case 0: press(CtrlC); ended = true; return;
            case 1: if (!buf.empty()) { press(CtrlU); return; } press(CtrlD); ended = true; return;
            default:
                hung = true; ++r.count["fault.terminal_lost"]; r.say("(the terminal is gone)");
                if (pr(1, 4)) { keys.push_back(27); if (pr(1, 2)) keys.push_back('['); }      // in the middle of a key
                return;
            }
        }
        if (buf == *want) { press(Enter); return; }
        if (target) {
            if (idx < target && idx + 1 < hist.size() && hist[hist.size() - 1 - target] == *want) { press(pr(1, 2) ? Up : CtrlP); return; }
            if (idx > target && hist[hist.size() - 1 - target] == *want) { press(pr(1, 2) ? Down : CtrlN); return; }
            target = 0;
        }
        const std::string& t = *want;
        if (buf.size() >= LINE - 1 || (finish == 0 && !buf.empty() && t.compare(0, buf.size(), buf))) { press(CtrlU); return; }
        if (finish == 1 && !buf.empty() && t.compare(0, buf.size(), buf)) { if (pos) press(CtrlA); else press(CtrlK); return; }
        // go where the two lines part, take out what is too much, put in what is missing
        size_t p = 0, s = 0;
        while (p < buf.size() && p < t.size() && buf[p] == t[p]) ++p;
        while (s < buf.size() - p && s < t.size() - p && buf[buf.size() - 1 - s] == t[t.size() - 1 - s]) ++s;
        size_t gone = buf.size() - p - s, lack = t.size() - p - s;
        if (gone && finish == 2) {      // from the right
            if (pos < buf.size() - s) press(pr(1, 2) ? Right : CtrlF);
            else if (pos > buf.size() - s) press(pr(1, 2) ? Left : CtrlB);
            else press(pr(1, 2) ? Back : CtrlH);
            return;
        }
        if (pos > p) { if (pos - p > 8 && p == 0) press(pr(1, 2) ? Home : HomeO); else press(pr(1, 2) ? Left : CtrlB); return; }
        if (pos < p) { if (p - pos > 8 && p == buf.size()) press(pr(1, 2) ? End : EndO); else press(pr(1, 2) ? Right : CtrlF); return; }
        if (gone) { press(pr(1, 2) ? Delete : CtrlD); return; }
        if (lack) { press(Char, t[p]); return; }
    }

    // The editor waits for a key: this is what the user sees.
    void look() {
        if (cur.c_lflag & (ICANON | ECHO) || cur.c_iflag & ICRNL || cur.c_lflag & ISIG) fail("terminal mode", "the terminal is not in raw mode while a line is edited");
        size_t cols = screen.cols, plen = prompt.size();
        if (plen >= cols) return;
        size_t p = std::min(pos, cols - 1 - plen), from = pos - p, n = std::min(buf.size() - from, cols - plen);
        std::string shown = prompt + buf.substr(from, n);
        for (char ch : buf) if (ch < 32 || ch > 126) return;        // not one column each
        std::string got = screen.row;
        if (shown.size() == cols) { shown.pop_back(); if (got.size() >= cols) got.resize(cols - 1); }      // terminals differ in the last column
        auto trim = [](std::string& s) { while (!s.empty() && s.back() == ' ') s.pop_back(); };
        trim(shown); trim(got);
        if (got != shown) fail("screen", "the line is \"" + buf + "\", on the screen is \"" + got + "\" instead of \"" + shown + "\" (" + std::to_string(cols) + " columns)");
        if (screen.at != plen + p) fail("cursor", "in \"" + buf + "\" at " + std::to_string(pos) + " the cursor is in column " + std::to_string(screen.at) + " instead of " + std::to_string(plen + p) + " (" + std::to_string(cols) + " columns)");
    }

    // ------------------------------------------------------------ system calls
    ssize_t readKeys(char* b, size_t n) {
        if (!editing) fail("terminal", "the terminal is read while no line is being entered");
        if (hung && keys.empty()) { if (finish == 2) return 0; errno = EIO; return -1; }
        if (eintrPct && r.ch.choose(S_FAULT, 100) < eintrPct) { ++r.count["fault.eintr"]; errno = EINTR; return -1; }
        if (!screen.reply.empty()) { *b = screen.reply.front(); screen.reply.pop_front(); return n ? 1 : 0; }
        if (keys.empty()) {
            if (entered) fail("enter", "Enter does not enter the line \"" + *want + "\"");
            if (ended) fail("end", "the end of input is not taken as such");
            look();
            r.mix(buf); r.mix(pos);
            next();
            if (keys.empty()) return readKeys(b, n);
        }
        size_t k = 0;
        while (k < n && !keys.empty()) { b[k++] = keys.front(); keys.pop_front(); if (r.ch.chance(S_FAULT, 1, 4)) break; }
        return k;
    }
    bool ended = false;
    ssize_t show(const char* b, size_t n) {
        if (hung) { errno = EIO; return -1; }
        for (size_t i = 0; i < n; ++i) screen.put(b[i]);
        return n;
    }
    int window(winsize* w) {
        if (hung) { errno = EIO; return -1; }
        if (columns == Unknown) { errno = ENOTTY; return -1; }
        *w = {};
        w->ws_row = 24;
        w->ws_col = columns == Zero ? 0 : (unsigned short)screen.cols;
        return 0;
    }
    int isTerminal() { if (kind == Pipe) { errno = ENOTTY; return 0; } if (hung) { errno = EIO; return 0; } return 1; }
    int getMode(termios* t) { if (!isTerminal()) return -1; *t = cur; return 0; }
    int setMode(const termios* t) {
        if (!isTerminal()) return -1;
        cur = *t;
        return 0;
    }
    // standard input as a stream (pipes, files and terminals that cannot edit)
    ssize_t pull(char* b, size_t n) {
        if (kind == Term) { if (hung) { if (finish == 2) return 0; errno = EIO; return -1; } fail("terminal", "an edited line is read as a stream"); }
        if (pipe.empty()) {
            if (broken) { errno = EIO; return -1; }
            if (!want || unterminated) return 0;
            fail("terminal", "the debugger reads on after the end of a line");
        }
        size_t k = 1 + r.ch.choose(S_FAULT, (uint32_t)std::min(n, pipe.size()));
        if (r.ch.chance(S_FAULT, 1, 2)) k = std::min(n, pipe.size()); else ++r.count["fault.short_read"];
        memcpy(b, pipe.data(), k);
        pipe.erase(0, k);
        return (ssize_t)k;
    }
};
}
