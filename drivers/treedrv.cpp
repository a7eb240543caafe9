// Bracket notation through the library.  Input: blocks "<command> <length>\n<bytes>"; output: one line per block.
// commands: text, stream (parse), roundtext (parse, write, parse), tree (build from a description, write)
#include <iostream>
#include <memory>
#include <string>
#include <vector>

#include "Common.h"
#include "DetailedException.h"
#include "MessageRegistration.h"
#include "Parse_tree.h"
#include "SystemClasses/System.Classes.hpp"

using namespace std;

extern Registrator msreg_g;

class Counter : public MessageRegistrator {
public:
	int errors = 0;
	void AddDetailedMessage(const string &, const MessageState state, const TStringList *) override { if (state == MessageState::Error) errors++; }
	void Status(const string &) override {}
};

static Counter counter;

static void hex(string &o, const string &s) {
	static const char *d = "0123456789abcdef";
	for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
}

static string unhex(const string &h) {
	string r;
	for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)stoi(h.substr(i, 2), nullptr, 16));
	return r;
}

// depth,type,value; in order; links between the nodes are compared on the way
static string dump(Tree *root) {
	string o;
	int depth = 0;
	Tree *t = root;
	while (t) {
		o += to_string(depth) + "," + to_string((int)t->get_type()) + ",";
		hex(o, t->get_value());
		o += ";";
		int n = 0;
		Tree *last = nullptr;
		for (Tree *c = t->get_first(); c; c = c->get_next()) {
			if (c->get_parent() != t) return "broken parent";
			if ((n < 8 || !c->get_next()) && t->get_subnode(n) != c) return "broken get_subnode";
			if (n < 8 && &(*t)[n] != c) return "broken index";
			n++;
			last = c;
		}
		if (n != t->get_num_subnode()) return "broken number of nodes";
		if (last != t->get_last()) return "broken last";
		if (t->get_first()) {
			t = t->get_first();
			depth++;
			continue;
		}
		while (t != root && !t->get_next()) {
			t = t->get_parent();
			depth--;
		}
		if (t == root) break;
		t = t->get_next();
	}
	return o;
}

static unique_ptr<Tree> parse(bool stream, const string &s) {
	if (!stream) return parse_1Ctext(s, "test");
	TMemoryStream m;
	if (!s.empty()) m.Write(s.data(), (int64_t)s.size());
	m.Seek(0, soFromBeginning);
	return parse_1Cstream(&m, "test");
}

static unique_ptr<Tree> build(const string &s) {
	unique_ptr<Tree> root;
	vector<Tree *> at;
	size_t i = 0;
	while (i < s.size()) {
		size_t j = s.find(';', i), a = s.find(',', i), b = s.find(',', a + 1);
		size_t depth = stoul(s.substr(i, a - i));
		int type = stoi(s.substr(a + 1, b - a - 1));
		string v = unhex(s.substr(b + 1, j - b - 1));
		Tree *t;
		if (depth == 0) {
			root.reset(new Tree(v, (node_type)type, nullptr));
			t = root.get();
		} else t = at[depth - 1]->add_child(v, (node_type)type);
		at.resize(depth);
		at.push_back(t);
		i = j + 1;
	}
	return root;
}

int main() {
	ios::sync_with_stdio(false);
	msreg_g.AddMessageRegistrator(&counter);
	string cmd;
	size_t n;
	while (cin >> cmd >> n) {
		cin.get();
		string s(n, '\0');
		if (n) cin.read(&s[0], (streamsize)n);
		counter.errors = 0;
		string a;
		try {
			if (cmd == "text" || cmd == "stream") {
				auto t = parse(cmd == "stream", s);
				a = "tree " + dump(t.get());
			} else {
				unique_ptr<Tree> t = cmd == "tree" ? build(s) : parse(cmd == "roundstream", s);
				string w = outtext(t.get());
				a = "out ";
				hex(a, w);
				a += " " + dump(parse(false, w).get());
			}
			if (counter.errors) a = "error message";
		} catch (DetailedException &e) {
			a = "error";
		} catch (exception &e) {
			a = string("exception ") + e.what();
		}
		cout << a << endl;
	}
	return 0;
}
