// driver of the ASDL support library: one request per line, one answer per line
#include "asdl/asdl.hpp"
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstring>
#include <stdexcept>

using namespace asdl;
using std::string;

static string hex (string const &s)
{
    static const char d[] = "0123456789abcdef";
    string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r.empty() ? "-" : r;
}
static string unhex (string const &h)
{
    string r;
    if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
    return r;
}

struct bad { string what; };

// an input stream that reports errors as exceptions
template <typename S> struct checked : public S {
    explicit checked (string const &a) : S(a) { }
    [[noreturn]] void invalidTag (unsigned int tag, std::string_view ty) override { throw bad{"tag " + std::to_string(tag) + " " + string(ty)}; }
    [[noreturn]] void invalidIOState (std::ios_base::iostate st) override { throw bad{(st & std::ios_base::eofbit) ? "eof" : "io"}; }
};
typedef checked<memory_instream> mem_in;
typedef checked<file_instream> file_in;

enum class small : unsigned int { A = 1, B, C, Z = 255 };
enum class big : unsigned int { A = 1, B = 64, C = 300, D = 16384, E = 4194304 };

// a class with the interface that generated classes have
struct box {
    int a; string b;
    box (int x, string const &y) : a(x), b(y) { }
    void write (outstream &os) { write_int(os, a); write_string(os, b); }
    static box *read (instream &is) { int x = read_int(is); return new box(x, read_string(is)); }
};

static std::vector<string> split (string const &s, char sep)
{
    std::vector<string> r; string cur; std::istringstream is(s);
    if (s == "-") return r;
    while (std::getline(is, cur, sep)) r.push_back(cur);
    return r;
}

static void put (outstream &os, string const &ty, string const &v)
{
    bool none = (v == "none");
    if (ty == "int") write_int(os, std::stoi(v));
    else if (ty == "uint") write_uint(os, std::stoul(v));
    else if (ty == "tag8") write_tag8(os, std::stoul(v));
    else if (ty == "tag") write_tag(os, std::stoul(v));
    else if (ty == "bool") write_bool(os, v == "1");
    else if (ty == "string") write_string(os, unhex(v));
    else if (ty == "i32") write_integer(os, integer(static_cast<int32_t>(std::stoll(v))));
    else if (ty == "u32") write_integer(os, integer(static_cast<uint32_t>(std::stoull(v))));
    else if (ty == "i64") write_integer(os, integer(static_cast<int64_t>(std::stoll(v))));
    else if (ty == "u64") write_integer(os, integer(static_cast<uint64_t>(std::stoull(v))));
    else if (ty == "def") write_integer(os, integer());
    else if (ty == "integer") { mem_in is(unhex(v)); write_integer(os, read_integer(is)); }
    else if (ty == "tag0?") write_tag0_option(os, none ? std::optional<unit>() : std::optional<unit>(unit()));
    else if (ty == "tag8?") write_tag8_option(os, none ? std::optional<unsigned>() : std::optional<unsigned>(std::stoul(v)));
    else if (ty == "tag?") write_tag_option(os, none ? std::optional<unsigned>() : std::optional<unsigned>(std::stoul(v)));
    else if (ty == "int?") write_int_option(os, none ? std::optional<int>() : std::optional<int>(std::stoi(v)));
    else if (ty == "uint?") write_uint_option(os, none ? std::optional<unsigned>() : std::optional<unsigned>(std::stoul(v)));
    else if (ty == "bool?") write_bool_option(os, none ? std::optional<bool>() : std::optional<bool>(v == "1"));
    else if (ty == "string?") write_string_option(os, none ? std::optional<string>() : std::optional<string>(unhex(v)));
    else if (ty == "integer?") {
	if (none) write_integer_option(os, std::optional<integer>());
	else { mem_in is(unhex(v)); write_integer_option(os, std::optional<integer>(read_integer(is))); }
    }
    else if (ty == "small?") { auto o = none ? std::optional<small>() : std::optional<small>(static_cast<small>(std::stoul(v))); write_small_enum_option(os, o); }
    else if (ty == "big?") { auto o = none ? std::optional<big>() : std::optional<big>(static_cast<big>(std::stoul(v))); write_big_enum_option(os, o); }
    else if (ty == "box?") {
	if (none) write_option(os, static_cast<box *>(nullptr));
	else { auto p = split(v, ':'); box b(std::stoi(p[0]), unhex(p[1])); write_option(os, &b); }
    }
    else if (ty == "small*") { std::vector<small> s; for (auto &x : split(v, ',')) s.push_back(static_cast<small>(std::stoul(x))); write_small_enum_seq(os, s); }
    else if (ty == "big*") { std::vector<big> s; for (auto &x : split(v, ',')) s.push_back(static_cast<big>(std::stoul(x))); write_big_enum_seq(os, s); }
    else if (ty == "box*") {
	std::vector<box *> s;
	for (auto &x : split(v, ',')) { auto p = split(x, ':'); s.push_back(new box(std::stoi(p[0]), unhex(p[1]))); }
	write_seq(os, s);
	for (auto p : s) delete p;
    }
    else throw std::runtime_error("type " + ty);
}

template <typename T> static string opt (std::optional<T> const &o) { return o.has_value() ? std::to_string(static_cast<long>(o.value())) : "none"; }

static string show (integer const &n)
{
    std::ostringstream r;
    int32_t i32 = 77; int64_t i64 = 77; uint32_t u32 = 77; uint64_t u64 = 77; int i = 77; unsigned u = 77;
    bool neg = n.getSign() < 0;
    r << (neg ? "-" : "+");
    if (n.toInt32(i32)) r << " big"; else r << " " << i32 << "/" << n.toInt32();
    if (n.toInt(i)) r << " big"; else r << " " << i << "/" << n.toInt();
    if (n.toInt64(i64)) r << " big"; else r << " " << i64 << "/" << n.toInt64();
    if (!neg) {
	if (n.toUInt32(u32)) r << " big"; else r << " " << u32 << "/" << n.toUInt32();
	if (n.toUInt(u)) r << " big"; else r << " " << u << "/" << n.toUInt();
	if (n.toUInt64(u64)) r << " big"; else r << " " << u64 << "/" << n.toUInt64();
    }
    return r.str();
}

static string get (instream &is, string const &ty)
{
    if (ty == "int") return std::to_string(read_int(is));
    if (ty == "uint") return std::to_string(read_uint(is));
    if (ty == "tag8") return std::to_string(read_tag8(is));
    if (ty == "tag") return std::to_string(read_tag(is));
    if (ty == "bool") return read_bool(is) ? "1" : "0";
    if (ty == "string") return hex(read_string(is));
    if (ty == "integer") return show(read_integer(is));
    if (ty == "tag0?") return read_tag0_option(is).has_value() ? "some" : "none";
    if (ty == "tag8?") return opt(read_tag8_option(is));
    if (ty == "tag?") return opt(read_tag_option(is));
    if (ty == "int?") return opt(read_int_option(is));
    if (ty == "uint?") return opt(read_uint_option(is));
    if (ty == "bool?") return opt(read_bool_option(is));
    if (ty == "string?") { auto o = read_string_option(is); return o.has_value() ? hex(o.value()) : "none"; }
    if (ty == "integer?") { auto o = read_integer_option(is); return o.has_value() ? show(o.value()) : "none"; }
    if (ty == "small?") return opt(read_small_enum_option<small>(is));
    if (ty == "big?") return opt(read_big_enum_option<big>(is));
    if (ty == "box?") {
	box *b = read_option<box>(is);
	if (b == nullptr) return "none";
	string r = std::to_string(b->a) + ":" + hex(b->b);
	delete b;
	return r;
    }
    string r;
    if (ty == "small*") { for (auto x : read_small_enum_seq<small>(is)) r += std::to_string(static_cast<unsigned>(x)) + ","; }
    else if (ty == "big*") { for (auto x : read_big_enum_seq<big>(is)) r += std::to_string(static_cast<unsigned>(x)) + ","; }
    else if (ty == "int*") { for (auto x : read_int_seq(is)) r += std::to_string(x) + ","; }
    else if (ty == "uint*") { for (auto x : read_uint_seq(is)) r += std::to_string(x) + ","; }
    else if (ty == "box*") { for (auto x : read_seq<box>(is)) { r += std::to_string(x->a) + ":" + hex(x->b) + ","; delete x; } }
    else throw std::runtime_error("type " + ty);
    return r.empty() ? "-" : r.substr(0, r.size() - 1);
}

// how many bytes are left, by reading to the end
static string left (instream &is)
{
    size_t n = 0;
    try { for (;;) { is.getb(); n++; } }
    catch (bad const &b) { return std::to_string(n) + " " + b.what; }
}

// streams that count how many of them are alive
static int live = 0;
struct c_out : public std::ostringstream { c_out () { live++; } ~c_out () { live--; } };
struct c_in : public std::istringstream { c_in (string const &s) : std::istringstream(s) { live++; } ~c_in () { live--; } };
struct named_in : public instream {
    named_in (string const &n, std::istream *is) : instream(n, is) { }
    named_in (named_in &&o) : instream(std::move(o)) { }
    named_in &operator= (named_in &&o) { instream::operator=(std::move(o)); return *this; }
    string name () const { return this->_name; }
    [[noreturn]] void invalidTag (unsigned int, std::string_view) override { throw bad{"tag"}; }
    [[noreturn]] void invalidIOState (std::ios_base::iostate) override { throw bad{"eof"}; }
};

static string moves (string const &bytes)
{
    std::ostringstream r;
    {
	c_out *p = new c_out, *q = new c_out;
	outstream a(p), b(q);
	write_string(a, bytes);
	outstream c(std::move(a));
	write_string(c, bytes);
	string sp = p->str();
	b = std::move(c);			// the stream of b is released, p lives on
	write_uint(b, 5);
	r << live << " " << hex(p->str()) << " ";
	outstream &same = b;
	b = std::move(same);
	write_uint(b, 6);
	r << hex(p->str().substr(sp.size())) << " ";
    }
    r << live << " ";
    {
	named_in a("first", new c_in(bytes)), b("second", new c_in("zz"));
	named_in c(std::move(a));
	r << c.name() << " " << live << " ";
	b = std::move(c);
	r << b.name() << " " << live << " ";
	string got;
	try { for (;;) got += b.getc(); } catch (bad const &e) { r << e.what << " "; }
	r << hex(got) << " ";
    }
    r << live;
    return r.str();
}

static integer mk (string const &h) { mem_in is(unhex(h)); return read_integer(is); }

int main ()
{
    std::ios_base::sync_with_stdio(false);
    string line;
    while (std::getline(std::cin, line)) {
	std::vector<string> a = split(line, ' ');
	string out;
	try {
	    if (a[0] == "w") {
		memory_outstream os;
		for (size_t i = 1; i + 1 < a.size(); i += 2) put(os, a[i], a[i+1]);
		out = hex(os.get_pickle());
	    }
	    else if (a[0] == "r") {
		mem_in is(unhex(a[1]));
		for (size_t i = 2; i < a.size(); i++) out += get(is, a[i]) + " ";
		out += left(is);
	    }
	    else if (a[0] == "fw") {
		file_outstream os(a[1]);
		for (size_t i = 3; i + 1 < a.size(); i += 2) put(os, a[i], a[i+1]);
		if (a[2] == "close") {
		    os.close();
		    std::ifstream f(a[1], std::ios_base::binary); std::ostringstream s; s << f.rdbuf();
		    out = hex(s.str());
		} else out = "ok";
	    }
	    else if (a[0] == "fr") {
		file_in is(a[1]);
		for (size_t i = 2; i < a.size(); i++) out += get(is, a[i]) + " ";
		out += left(is);
	    }
	    else if (a[0] == "eq") {
		integer x = mk(a[1]), y = mk(a[2]);
		out = string(x == y ? "1" : "0") + (x != y ? "1" : "0") + (integer() == x ? "1" : "0");
	    }
	    else if (a[0] == "mv") out = moves(unhex(a[1]));
	    else if (a[0] == "die") {	// the reaction of the library itself
		memory_instream is(unhex(a[1]));
		out = get(is, a[2]);
	    }
	    else out = "?";
	}
	catch (bad const &b) { out += "BAD " + b.what; }
	std::cout << out << "\n" << std::flush;
    }
}
