// Descriptions of interfaces filled in at runtime
#include "describe.hpp"
using namespace pbt;
using model::Value;

struct Kind {
	enum What { INTEGER, FLOAT, BOOLEAN, STRING, ARRAY, OPTIONAL, NAMED, UNNAMED } what = INTEGER;
	std::string name;
	std::shared_ptr<Kind> inner;

	Value expected() const {
		switch (what) {
			case INTEGER: case FLOAT: return Value::str("number");
			case BOOLEAN: return Value::str("boolean");
			case STRING: return Value::str("string");
			case ARRAY: { Value v = Value::array(); v.items.push_back(inner->expected()); return v; }
			case OPTIONAL: return inner->expected();
			case NAMED: return Value::str(name);
			default: return Value::str("object");
		}
	}
	void fill(Bomba::IPropertyDescriptionFiller& filler) const {
		switch (what) {
			case INTEGER: filler.addInteger(); break;
			case FLOAT: filler.addFloat(); break;
			case BOOLEAN: filler.addBoolean(); break;
			case STRING: filler.addString(); break;
			case ARRAY: filler.addArray([this] (Bomba::IPropertyDescriptionFiller& f) { inner->fill(f); }); break;
			case OPTIONAL: filler.addOptional([this] (Bomba::IPropertyDescriptionFiller& f) { inner->fill(f); }); break;
			case NAMED: filler.addSubobject(name, [] (Bomba::IPropertyDescriptionFiller& f) { f.addInteger(); }); break;
			default: filler.addSubobject(std::nullopt, [this] (Bomba::IPropertyDescriptionFiller& f) { if (inner) inner->fill(f); }); break;
		}
	}
	static Kind random(Src& src, int depth = 0) {
		Kind k;
		k.what = What(src.raw(depth > 4 ? 3 : 7));
		if (k.what == ARRAY || k.what == OPTIONAL || (k.what == UNNAMED && src.coin())) k.inner = std::make_shared<Kind>(random(src, depth + 1));
		if (k.what == NAMED) k.name = src.text(Src::UTF8, 12);
		return k;
	}
};
struct Property { std::string name, doc; Kind kind; };

static std::vector<Property> properties(Src& src, size_t most) {
	std::vector<Property> r;
	std::set<std::string> used;
	for (size_t i = src.raw(most); i > 0; i--) {
		Property p{src.text(Src::UTF8, 20), src.coin() ? "" : src.text(Src::UTF8, 60), Kind::random(src)};
		if (used.insert(p.name).second) r.push_back(std::move(p));
	}
	return r;
}
static Value docs(const std::string& doc) {
	Value v = Value::array();
	if (!doc.empty()) v.items.push_back(Value::str(doc));
	return v;
}

struct Callable : Bomba::IRemoteCallable {
	struct Function {
		std::string name, doc;
		std::vector<Property> params;
		std::optional<Property> returned;
	};
	struct Described { std::string name; std::vector<Property> members; int nesting; };
	std::vector<Function> methods;
	std::vector<std::pair<std::string, std::shared_ptr<Callable>>> children;
	std::vector<Described> types;

	void generateDescription(Bomba::IRemoteCallableDescriptionFiller& filler) const override {
		for (auto& m : methods) {
			filler.addMethod(m.name, m.doc, [&] (Bomba::IPropertyDescriptionFiller& f) {
				for (auto& p : m.params) f.addMember(p.name, p.doc, [&] { p.kind.fill(f); });
			}, [&] (Bomba::IPropertyDescriptionFiller& f) {
				if (m.returned) f.addMember(m.returned->name, m.returned->doc, [&] { m.returned->kind.fill(f); });
			});
		}
		for (auto& [name, child] : children) {
			filler.addSubobject(name, [&, child = child.get()] (Bomba::IRemoteCallableDescriptionFiller& f) { child->generateDescription(f); });
		}
	}
	static void addType(Bomba::ISerialisableDescriptionFiller& filler, const Described& type, int nesting) {
		if (nesting > 0) filler.addMoreTypes([&] (Bomba::ISerialisableDescriptionFiller& f) { addType(f, type, nesting - 1); });
		else filler.fillMembers(type.name, [&] (Bomba::IPropertyDescriptionFiller& f) {
			for (auto& p : type.members) f.addMember(p.name, p.doc, [&] { p.kind.fill(f); });
		});
	}
	void listTypes(Bomba::ISerialisableDescriptionFiller& filler) const override {
		for (auto& t : types) addType(filler, t, t.nesting);
		for (auto& [name, child] : children) child->listTypes(filler);
	}
};

struct Made { Value types = Value::object(), methods = Value::object(); size_t params = 0; };

static void randomise(Src& src, Callable& made, Made& expected, const std::string& prefix, int depth) {
	auto name = [&] (bool mayBeEmpty) {
		std::string r = src.text(Src::UTF8, 15);
		std::replace(r.begin(), r.end(), '.', ',');
		if (r.empty() && !mayBeEmpty) r = "unnamed";
		return r;
	};
	for (int i = int(src.raw(3)); i > 0; i--) {
		Callable::Function f;
		f.name = name(true);
		f.doc = src.coin() ? "" : src.text(Src::UTF8, 100);
		f.params = properties(src, 6);
		if (src.coin()) f.returned = Property{"result", src.coin() ? "" : src.text(Src::UTF8, 30), Kind::random(src)};
		if (expected.methods.find(prefix + f.name)) continue;
		Value params = Value::object(true), method = Value::object(), returned = Value::object();
		int order = 1;
		for (auto& p : f.params) {
			Value v = Value::object();
			v.members = {{"def_order", Value::integer(order++)}, {"doc_lines", docs(p.doc)}, {"type", p.kind.expected()}, {"optional", Value::boolean(p.kind.what == Kind::OPTIONAL)}};
			params.members.emplace_back(p.name, v);
			expected.params++;
		}
		returned.members = {{"doc_lines", docs(f.returned ? f.returned->doc : "")}, {"type", f.returned ? f.returned->kind.expected() : Value::null()}};
		method.members = {{"doc_lines", docs(f.doc)}, {"params", params}, {"ret_info", returned}};
		expected.methods.members.emplace_back(prefix + f.name, method);
		made.methods.push_back(std::move(f));
	}
	for (int i = int(src.raw(2)); i > 0; i--) {
		Callable::Described type{name(true), properties(src, 4), int(src.raw(2))};
		if (expected.types.find(type.name)) continue;
		Value v = Value::object();
		for (auto& p : type.members) v.members.emplace_back(p.name, p.kind.expected());
		expected.types.members.emplace_back(type.name, v);
		made.types.push_back(std::move(type));
	}
	std::set<std::string> used;
	for (int i = int(src.raw(depth < 3 ? 2 : 0)); i > 0; i--) {
		std::string childName = name(false);
		if (!used.insert(childName).second) continue;
		auto child = std::make_shared<Callable>();
		randomise(src, *child, expected, prefix + childName + ".", depth + 1);
		made.children.emplace_back(childName, child);
	}
}

static void filled(Src& src) {
	Callable root;
	Made expected;
	randomise(src, root, expected, "", 0);
	describe::compare(src, root, expected.types, expected.methods);
	src.labelIf(!root.children.empty(), "nested");
	src.nontrivial = expected.params > 1;
}

PBT_MAIN({"filled", filled, 20000, 400000})
