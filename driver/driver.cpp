// Runs the real interpreter on recorded cases and reports what it observably did.
// usage: driver SCRATCHDIR [--batch] < cases > observations
// A case is a list of fields  "<key> <length>\n<bytes>\n"  ended by  "end 0\n\n".
// Every case (every batch with --batch) runs in a child process of its own, inside its own directory.
#include "Lisp.h"
#include "Exception.h"
#include "fuel.h"
#include "Scope.h"
#include "Environment.h"
#include "DebuggerInterface.h"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <grp.h>
#include <dirent.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>

using namespace CppLisp;
extern "C" ILispDebugger * create_debugger();

typedef std::vector<std::pair<std::string, std::string>> Case;

static std::string J(const std::string & s)
{
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s)
    {
        if (c == '"') r += "\\\"";
        else if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
static std::string N(long v) { return std::to_string(v); }
static std::string get(const Case & c, const char * key, const char * def = "")
{
    for (auto & f : c) if (f.first == key) return f.second;
    return def;
}
static bool has(const Case & c, const char * key)
{
    for (auto & f : c) if (f.first == key) return true;
    return false;
}

static std::string Token(std::shared_ptr<LispToken> t)
{
    static const char * names[] = { "(", ")", "sym", "str", "int", "dbl", "q", "qq", "uq", "uqs", "true", "false", "cmt", "nil" };
    std::string ty = (int)t->Type >= 0 && (int)t->Type <= 13 ? names[t->Type] : "?";
    return "{\"ty\":" + J(ty) + ",\"tx\":" + J(t->ToString()) + ",\"st\":" + N((long)t->StartPos) + ",\"sp\":" + N((long)t->StopPos) + ",\"ln\":" + N((long)t->LineNo) + "}";
}
static std::string DataOf(const LispException & e, const char * key)
{
    auto it = e.Data.find(key);
    return it == e.Data.end() || it->second == null ? std::string("<none>") : std::string(it->second->ToString());
}
static std::string Error(const char * kind, const std::string & msg, const LispException * e)
{
    std::string r = "\"exc\":" + J(kind) + ",\"msg\":" + J(msg);
    if (e != 0)
        r += ",\"line\":" + J(DataOf(*e, "LineNo")) + ",\"start\":" + J(DataOf(*e, "StartPos")) + ",\"stop\":" + J(DataOf(*e, "StopPos"))
            + ",\"module\":" + J(DataOf(*e, "ModuleName")) + ",\"stack\":" + J(DataOf(*e, "StackInfo"));
    else
        r += ",\"line\":\"\",\"start\":\"\",\"stop\":\"\",\"module\":\"\",\"stack\":\"\"";
    return r;
}
static std::string NoError() { return "\"exc\":\"\",\"msg\":\"\",\"line\":\"\",\"start\":\"\",\"stop\":\"\",\"module\":\"\",\"stack\":\"\""; }
template <class F> static std::string Guarded(F f)
{
    try { return f(); }
    catch (LispException & e) { return Error("located", e.Message, &e); }
    catch (LispExceptionBase & e) { return Error("base", e.Message, 0); }
    catch (std::exception & e) { return Error("foreign", e.what(), 0); }
    catch (...) { return Error("foreign", "?", 0); }
}
static std::string ResultOf(std::shared_ptr<LispVariant> r)
{
    if (r == null) return "\"ty\":\"null\",\"tx\":\"\",\"sv\":\"\"";
    std::string tx = r->ToString(), sv;
    if (r->IsError()) sv = "";
    else sv = r->StringValue();
    return "\"ty\":" + J(r->TypeString()) + ",\"tx\":" + J(tx) + ",\"sv\":" + J(sv);
}
static std::string NoResult() { return "\"ty\":\"\",\"tx\":\"\",\"sv\":\"\""; }

static std::string Leaf(const std::string & tok) { return "{\"leaf\":true,\"tok\":" + tok + ",\"kids\":[]}"; }
static std::string NoTok(const char * ty, const std::string & tx) { return Leaf("{\"ty\":" + J(ty) + ",\"tx\":" + J(tx) + ",\"st\":-1,\"sp\":-1,\"ln\":-1}"); }
static std::string Tree(std::shared_ptr<object> o)
{
    if (o == null) return NoTok("null", "");
    if (o->IsList())
    {
        std::string r;
        for (auto & e : o->ToListRef()) { if (!r.empty()) r += ","; r += Tree(e); }
        return "{\"leaf\":false,\"tok\":{\"ty\":\"none\",\"tx\":\"\",\"st\":-1,\"sp\":-1,\"ln\":-1},\"kids\":[" + r + "]}";
    }
    if (o->IsLispVariant())
    {
        auto v = o->ToLispVariant();
        if (v->Token != null) return Leaf(Token(v->Token));
        return NoTok(v->IsSymbol() ? "sym" : "variant", v->ToString());
    }
    return NoTok("obj", o->ToString());
}

static void ListFiles(const std::string & dir, std::vector<std::string> & names)
{
    if (DIR * d = opendir(dir.empty() ? "." : dir.c_str()))
    {
        std::vector<std::string> found;
        while (dirent * e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") found.push_back(n); }
        closedir(d);
        for (auto & n : found)
        {
            std::string f = dir.empty() ? n : dir + "/" + n;
            struct stat sb;
            if (lstat(f.c_str(), &sb) != 0) continue;
            if (S_ISDIR(sb.st_mode)) ListFiles(f, names); else if (S_ISREG(sb.st_mode)) names.push_back(f);
        }
    }
}
static std::string Files()
{
    std::string r = "{";
    bool first = true;
    std::vector<std::string> names;
    ListFiles("", names);
    std::sort(names.begin(), names.end());
    for (auto & n : names)
    {
        std::string txt; char buf[4096]; size_t k;
        if (FILE * f = fopen(n.c_str(), "rb")) { while ((k = fread(buf, 1, sizeof buf, f)) > 0) txt.append(buf, k); fclose(f); }
        if (!first) r += ","; first = false;
        r += J(n) + ":" + J(txt);
    }
    return r + "}";
}

static void Put(int fd, const std::string & s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) _exit(9); o += k; } }
static int g_steps = -1;          // where finished steps are reported, in case a later one kills the process

static std::string RunCase(const Case & c)
{
    std::string mode = get(c, "mode"), out;
    if (mode == "tok")
    {
        size_t off = (size_t)atol(get(c, "off", "0").c_str());
        std::string code = get(c, "code"), toks;
        std::string err = Guarded([&]() {
            for (auto & t : LispTokenizer::Tokenize(code, off)) toks += (toks.empty() ? "" : ",") + Token(t);
            return NoError(); });
        return "\"toks\":[" + toks + "]," + err;
    }
    if (mode == "parse")
    {
        size_t off = (size_t)atol(get(c, "off", "0").c_str());
        std::string code = get(c, "code"), tree = Tree(null);
        std::string err = Guarded([&]() {
            auto scope = LispEnvironment::CreateDefaultScope();
            scope->ModuleName = "mod";
            tree = Tree(LispParser::Parse(code, off, scope));
            return NoError(); });
        return "\"tree\":" + tree + "," + err;
    }
    std::shared_ptr<TextWriter> w = std::make_shared<TextWriter>(true);
    std::shared_ptr<TextReader> rd = std::make_shared<TextReader>(get(c, "input", ""));
    std::string module = get(c, "module", "main");
    if (has(c, "lib")) LispUtils_LibraryPath = get(c, "lib");
    if (has(c, "fuelpath")) setenv("FUELPATH", get(c, "fuelpath").c_str(), 1);
    bool tracing = has(c, "tracing"), expand = has(c, "expand"), verbose = has(c, "verbose");
    if (mode == "save")         // SaveEval: the error report is part of the output
    {
        std::string steps;
        for (auto & f : c)
        {
            if (f.first != "code") continue;
            std::string res;
            w = std::make_shared<TextWriter>(true);
            std::string err = Guarded([&]() {
                auto r = Lisp::SaveEval(f.second, module, verbose, tracing, w, rd, expand);
                res = ResultOf(r);
                return NoError(); });
            std::string step = "{\"out\":" + J(w->GetContent()) + "," + (res.empty() ? NoResult() : res) + "," + err + "}";
            if (g_steps >= 0) Put(g_steps, "+" + step + "\n");
            steps += (steps.empty() ? "" : ",") + step;
        }
        return "\"steps\":[" + steps + "],\"files\":" + Files();
    }
    if (mode == "sess")         // several inputs in one scope (or each in a fresh one)
    {
        std::string steps;
        bool fresh = has(c, "fresh");
        auto scope = LispEnvironment::CreateDefaultScope();
        for (auto & f : c)
        {
            if (f.first != "code") continue;
            if (fresh) { scope = LispEnvironment::CreateDefaultScope(); w = std::make_shared<TextWriter>(true); }
            size_t before = w->GetContent().size();
            std::string res;
            std::string err = Guarded([&]() {
                auto r = Lisp::Eval(f.second, scope, module, tracing, w, rd, expand);
                res = ResultOf(r);
                return NoError(); });
            std::string o = w->GetContent().substr(before);
            std::string step = std::string("{\"out\":") + J(o) + "," + (res.empty() ? NoResult() : res) + "," + err + "}";
            if (g_steps >= 0) Put(g_steps, "+" + step + "\n");
            steps += (steps.empty() ? "" : ",") + step;
        }
        return "\"steps\":[" + steps + "],\"files\":" + Files();
    }
    if (mode == "main")         // the command line program
    {
        std::vector<string> args;
        for (auto & f : c) if (f.first == "arg") args.push_back(f.second);
        std::string err = Guarded([&]() { Fuel::MainExtended(args, w, rd); return NoError(); });
        std::string o = w->GetContent(), tag = "Execution time = ";
        size_t a = o.rfind(tag), b = a;
        if (a != std::string::npos)        // the time itself is no matter of the specification
        {
            a += tag.size(); b = o.find_first_not_of("0123456789.", a);
            if (b != std::string::npos && b > a && o.substr(b) == " s\n") o.replace(a, b - a, "#");
        }
        return "\"compiler\":" + J(Lisp::GetCompilerInfo()) + ",\"steps\":[{\"out\":" + J(o) + "," + NoResult() + "," + err + "}],\"files\":" + Files();
    }
    if (mode == "dbg" || mode == "tri")          // a program under the debugger, commands from the input (tri: before it plain and traced)
    {
        std::string steps;
        for (int k = mode == "tri" ? 0 : 2; k < 3; k++)
        {
            w = std::make_shared<TextWriter>(true);
            std::string res;
            std::string err = Guarded([&]() {
                if (k < 2)
                    res = ResultOf(Lisp::Eval(get(c, "code"), LispEnvironment::CreateDefaultScope(), module, tracing || k == 1, w, std::make_shared<TextReader>("")));
                else
                {
                    ILispDebugger * d = create_debugger();
                    d->SetInputOutputStreams(w, rd);
                    res = ResultOf(d->DebuggerLoop(get(c, "code"), module, tracing));
                }
                return NoError(); });
            std::string step = "{\"out\":" + J(w->GetContent()) + "," + (res.empty() ? NoResult() : res) + "," + err + "}";
            if (g_steps >= 0) Put(g_steps, "+" + step + "\n");
            steps += (steps.empty() ? "" : ",") + step;
        }
        return "\"steps\":[" + steps + "],\"files\":" + Files();
    }
    return "\"bad\":\"mode\"";
}

static bool ReadCase(std::istream & in, Case & c)
{
    c.clear();
    std::string key; size_t len;
    while (in >> key >> len)
    {
        in.get();
        std::string v(len, '\0');
        if (len) in.read(&v[0], len);
        in.get();
        if (key == "end") return true;
        c.push_back(std::make_pair(key, v));
    }
    return false;
}

int main(int argc, char ** argv)
{
    std::string scratch = argv[1];
    bool batch = argc > 2 && std::string(argv[2]) == "--batch";
    int outfd = dup(1), devnull = open("/dev/null", O_RDWR);
    dup2(devnull, 1); dup2(devnull, 2);
    std::vector<Case> cases; Case c;
    while (ReadCase(std::cin, c)) cases.push_back(c);
    dup2(devnull, 0);
    signal(SIGPIPE, SIG_IGN);
    unsetenv("FUELPATH");
    size_t i = 0;
    int timeouts = 0;
    while (i < cases.size())
    {
        if (timeouts >= 4) { Put(outfd, "{\"id\":" + N((long)i) + ",\"crash\":\"not run\",\"steps\":[]}\n"); i++; continue; }
        int p[2]; if (pipe(p) != 0) return 2;
        std::string dir = scratch + "/c" + N((long)i);
        if (!batch)
        {
            mkdir(dir.c_str(), 0777); chmod(dir.c_str(), 0777);
            for (auto & f : cases[i])
                if (f.first.compare(0, 5, "file:") == 0)
                {
                    std::string n = f.first.substr(5);
                    for (size_t q = n.find('/'); q != std::string::npos; q = n.find('/', q + 1)) { std::string dn = dir + "/" + n.substr(0, q); mkdir(dn.c_str(), 0777); chmod(dn.c_str(), 0777); }
                    if (FILE * fp = fopen((dir + "/" + n).c_str(), "wb")) { fwrite(f.second.data(), 1, f.second.size(), fp); fclose(fp); chmod((dir + "/" + n).c_str(), 0666); }
                }
        }
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0)
        {
            close(p[0]);
            if (!batch) g_steps = p[1];
            if (!batch && chdir(dir.c_str()) != 0) _exit(8);
            if (setgroups(0, 0) != 0 || setgid(65534) != 0 || setuid(65534) != 0) { /* not allowed here: the programs only name files of this directory */ }
            rlimit rl; rl.rlim_cur = rl.rlim_max = 3ul << 30; setrlimit(RLIMIT_AS, &rl);
            rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            for (size_t k = i; k < (batch ? cases.size() : i + 1); k++)
            {
                alarm((unsigned)atoi(get(cases[k], "limit", "6").c_str()));
                Put(p[1], "{\"id\":" + N((long)k) + ",\"crash\":\"\"," + RunCase(cases[k]) + "}\n");
            }
            _exit(0);
        }
        close(p[1]);
        std::string got; char buf[65536]; ssize_t k;
        while ((k = read(p[0], buf, sizeof buf)) > 0)
        {
            got.append(buf, k);
            size_t nl = got.rfind('\n');
            if (batch && nl != std::string::npos)
            {
                for (size_t q = 0; q <= nl; q++) if (got[q] == '\n') i++;
                Put(outfd, got.substr(0, nl + 1)); got.erase(0, nl + 1);
            }
        }
        close(p[0]);
        int st; waitpid(pid, &st, 0);
        std::string steps;
        while (!batch && !got.empty() && got[0] == '+')
        {
            size_t nl = got.find('\n');
            if (nl == std::string::npos) { got.clear(); break; }
            steps += (steps.empty() ? "" : ",") + got.substr(1, nl - 1);
            got.erase(0, nl + 1);
        }
        if (!batch && !got.empty() && got.back() == '\n') { Put(outfd, got); i++; }
        else if (!(batch && i >= cases.size()))
        {
            std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "timeout" : "signal " + N(WTERMSIG(st))) : "exit " + N(WEXITSTATUS(st));
            if (why == "timeout") timeouts++;
            Put(outfd, "{\"id\":" + N((long)i) + ",\"crash\":" + J(why) + ",\"steps\":[" + steps + "]}\n");
            i++;
        }
    }
    _exit(0);
}
