// Compares sym/include/filesystem with the real std::filesystem on random paths, in a scratch directory.
#include <filesystem>
#include <fstream>
#include <iostream>
#include <random>
#define ION_FS_NS shadow
#define path path_x
#undef path
#include SHADOW
namespace r = std::filesystem;
namespace s = shadow;
static size_t bad = 0, n = 0;
template <class A, class B> void same(const char* what, const std::string& x, const std::string& y, const A& a, const B& b) {
    ++n;
    if (!(a == b)) { if (++bad < 40) std::cout << what << " [" << x << "] [" << y << "]: real [" << a << "] shadow [" << b << "]\n"; }
}
int main(int, char** argv) {
    std::mt19937 g(7);
    r::current_path(argv[1]);
    const char* parts[] = {"/", "/", "/", "//", ".", "..", "a", "b", "c.x", ".h", "l", "up", "abs", "dang", "f.txt", "a.b.c", "loop", "...", "x."};
    auto mk = [&](int max) { std::string t; int k = g() % (max + 1); for (int i = 0; i < k; ++i) { t += parts[g() % std::size(parts)]; if (g() % 2) t += "/"; } return t; };
    r::create_directories("a/b"); r::create_directories("b/c.x"); { std::ofstream("a/f.txt") << "x"; std::ofstream("f.txt") << "y"; }
    r::create_symlink("a", "l"); r::create_symlink("..", "a/up"); r::create_symlink(r::current_path() / "b", "a/abs"); r::create_symlink("nowhere", "dang"); r::create_symlink("loop", "loop"); r::create_symlink("../a/b", "b/l");
    for (int i = 0; i < 400000; ++i) {
        std::string x = mk(6), y = mk(4);
        if (g() % 8 == 0) x = r::current_path().string() + "/" + x;
        r::path p(x), q(y); s::path P(x), Q(y);
        same("normal", x, "", p.lexically_normal().string(), P.lexically_normal().string());
        same("join", x, y, (p / q).string(), (P / Q).string());
        same("parent", x, "", p.parent_path().string(), P.parent_path().string());
        same("filename", x, "", p.filename().string(), P.filename().string());
        same("extension", x, "", p.extension().string(), P.extension().string());
        same("stem", x, "", p.stem().string(), P.stem().string());
        same("relative", x, y, p.lexically_relative(q).string(), P.lexically_relative(Q).string());
        same("proximate", x, y, p.lexically_proximate(q).string(), P.lexically_proximate(Q).string());
        same("compare", x, y, (p < q) + 2 * (p == q), (P < Q) + 2 * (P == Q));
        same("relpath", x, "", p.relative_path().string(), P.relative_path().string());
        { auto a = p, b = q; auto A = P; a.replace_extension("zz"); A.replace_extension(s::path("zz")); same("replext", x, "", a.string(), A.string()); a = p; A = P; a.replace_filename(b); A.replace_filename(Q); same("replfn", x, y, a.string(), A.string()); }
        same("hasparent", x, "", p.has_parent_path(), P.has_parent_path());
        std::string ir, is; for (auto& c : p) ir += "<" + c.string() + ">"; for (auto& c : P) is += "<" + c.string() + ">";
        same("iterate", x, "", ir, is);
        if (i % 10 == 0) {
            std::error_code e, E;
            auto v = r::weakly_canonical(p, e).string(); auto V = s::weakly_canonical(P, E).string();
            same("weak", x, "", v, V); same("weak-ec", x, "", e.value(), E.value());
            v = r::canonical(p, e).string(); V = s::canonical(P, E).string();
            same("canon", x, "", v, V); same("canon-ec", x, "", e.value(), E.value());
            same("exists", x, "", r::exists(p, e), s::exists(P, E)); same("exists-ec", x, "", e.value(), E.value());
            same("isdir", x, "", r::is_directory(p, e), s::is_directory(P, E));
            same("isreg", x, "", r::is_regular_file(p, e), s::is_regular_file(P, E)); same("isreg-ec", x, "", e.value(), E.value());
            same("islink", x, "", r::is_symlink(p, e), s::is_symlink(P, E));
            same("size", x, "", (long)r::file_size(p, e), (long)s::file_size(P, E)); same("size-ec", x, "", e.value(), E.value());
            same("absolute", x, "", r::absolute(p, e).string(), s::absolute(P, E).string());
            v = r::relative(p, q, e).string(); V = s::relative(P, Q, E).string();
            same("frel", x, y, v, V);
            same("readlink", x, "", r::read_symlink(p, e).string(), s::read_symlink(P, E).string());
        }
    }
    std::cout << n << " comparisons, " << bad << " differences\n";
    return bad != 0;
}
