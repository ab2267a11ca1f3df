// Interfaces composed at runtime: holders of lambdas and objects made of them
#include "engine.hpp"
#include "bomba_dynamic_object.hpp"
#include "bomba_json.hpp"
using namespace pbt;
using namespace Bomba;
using Json = BasicJson<std::string, GeneralisedBuffer>;

// Captured data that track their instances and check their integrity
static std::map<const void*, int64_t> instances;
template <int Padding>
struct Tracked {
	int64_t value;
	char padding[Padding];
	void born(int64_t v) {
		value = v;
		memset(padding, int(v) & 0x7f, Padding);
		require(instances.insert({this, v}).second, "an instance was created where another one exists");
	}
	Tracked(int64_t v) { born(v); }
	Tracked(const Tracked& other) { born(other.get()); }
	Tracked(Tracked&& other) { born(other.get()); other.value = -1; instances[&other] = -1; memset(other.padding, 0x7f, Padding); }
	void operator=(const Tracked&) = delete;
	~Tracked() { if (!instances.erase(this)) { fprintf(stderr, "destroyed an instance that does not exist\n"); abort(); } }
	int64_t get() const {
		auto found = instances.find(this);
		if (found == instances.end()) fail("an instance that does not exist is used");
		requireEqual(found->second, value, "captured value");
		for (char c : padding) if (c != (int(value) & 0x7f)) fail("captured data are damaged");
		return value;
	}
};
template <int Count>
struct Words {
	int64_t words[Count];
	Words(int64_t v) { for (int i = 0; i < Count; i++) words[i] = v * (i + 1); }
	int64_t get() const {
		for (int i = 0; i < Count; i++) requireEqual(words[0] * (i + 1), words[i], "captured word");
		return words[0];
	}
};
template <int Alignment>
struct alignas(Alignment) Aligned {
	int64_t value;
	Aligned(int64_t v) : value(v) {}
	int64_t get() const {
		if (reinterpret_cast<uintptr_t>(this) % Alignment) fail("captured data are misaligned");
		return value;
	}
};
struct Counted {
	std::shared_ptr<Tracked<1>> inner;
	Counted(int64_t v) : inner(std::make_shared<Tracked<1>>(v)) {}
	int64_t get() const { return inner->get(); }
};
struct Text {
	std::string text;
	Text(int64_t v) : text("The value of this is " + std::to_string(v)) {}
	int64_t get() const { return std::stoll(text.substr(21)); }
};
struct MoveOnly {
	std::unique_ptr<Tracked<1>> inner;
	MoveOnly(int64_t v) : inner(std::make_unique<Tracked<1>>(v)) {}
	int64_t get() const { return inner->get(); }
};
struct Byte {
	int8_t v;
	Byte(int64_t v) : v(v) {}
	int64_t get() const { return v; }
};

template <typename T>
auto lambda(T captured) {
	return [captured = std::move(captured)] (int64_t value = name("value")) { return captured.get() * 1000 + value; };
}
constexpr int KINDS = 13;
struct Content { int kind = 0; int64_t value = 0; bool movedFrom = false; bool tracked() const { return !movedFrom && (kind >= 6 && kind <= 10); } };

// Calls the functor with a lambda of the given kind (as lvalue, const lvalue or rvalue)
template <typename F>
void withLambda(Src& src, const Content& what, const F& f) {
	int category = int(src.raw(2));
	auto give = [&] <typename T> (std::type_identity<T>) {
		auto made = lambda(T(what.value));
		if constexpr(std::is_copy_constructible_v<decltype(made)>) {
			if (category == 0) { f(made); require(made(1) == what.value * 1000 + 1, "a lambda was changed by copying it"); return; }
			if (category == 1) { const auto& constant = made; f(constant); require(made(1) == what.value * 1000 + 1, "a lambda was changed by copying it"); return; }
		}
		f(std::move(made));
	};
	switch (what.kind) {
		case 0: return give(std::type_identity<Words<1>>());
		case 1: return give(std::type_identity<Words<2>>());
		case 2: return give(std::type_identity<Words<3>>());
		case 3: return give(std::type_identity<Words<4>>());
		case 4: return give(std::type_identity<Words<5>>());
		case 5: return give(std::type_identity<Words<40>>());
		case 6: return give(std::type_identity<Tracked<1>>());
		case 7: return give(std::type_identity<Tracked<8>>());
		case 8: return give(std::type_identity<Tracked<70>>());
		case 9: return give(std::type_identity<Counted>());
		case 10: return give(std::type_identity<Counted>());
		case 11: return src.coin() ? give(std::type_identity<Aligned<16>>()) : give(std::type_identity<Aligned<32>>());
		case 12: return src.coin() ? give(std::type_identity<Text>()) : give(std::type_identity<Byte>());
	}
}
static Content randomContent(Src& src) {
	Content r{int(src.raw(KINDS - 1)), int8_t(src.integer())};
	return r;
}

static void checkCall(Src& src, const IRemoteCallable& callable, const Content& expected) {
	int32_t argument = int32_t(src.integer());
	std::string message = "{\"value\":" + std::to_string(argument) + "}";
	Json::Input in(message);
	ExpandingBuffer<> buffer;
	Json::Output out(buffer);
	int introduced = 0;
	require(callable.call(&in, out, [&] { introduced++; }, [] (std::string_view problem) { fail("the call failed"); }), "a lambda can't be called");
	requireEqual(1, introduced, "number of introductions of the result");
	requireEqual(std::to_string(expected.value * 1000 + argument), std::string(std::string_view(buffer)), "result of a call");
}
using Typed = TypedRpcLambdaHolder<int64_t(int64_t)>;

static void holders(Src& src) {
	instances.clear();
	{
		std::vector<std::unique_ptr<IRemoteCallable>> referees;
		std::vector<Typed> typed;
		std::vector<RpcLambdaHolder> untyped;
		std::vector<Content> typedModel, untypedModel;
		auto callTyped = [&] (size_t i) {
			if (typedModel[i].movedFrom) return;
			int64_t argument = int32_t(src.integer());
			requireEqual(typedModel[i].value * 1000 + argument, typed[i](argument), "result of a direct call");
			checkCall(src, *typed[i], typedModel[i]);
		};
		auto callUntyped = [&] (size_t i) { if (!untypedModel[i].movedFrom) checkCall(src, *untyped[i], untypedModel[i]); };
		auto local = [] (auto& holder, const Content& content) {
			if (content.kind <= 2) require(holder.isLocal(), "a small trivial lambda is not held locally");
			if (content.kind == 5 || (content.kind >= 6 && content.kind <= 10)) require(!holder.isLocal(), "a lambda that can't be held locally is held locally");
		};
		int steps = 1 + int(src.raw(40));
		int moves = 0;
		std::string log;
		for (int step = 0; step < steps; step++) {
			bool which = src.coin();
			auto& model = which ? typedModel : untypedModel;
			int operation = int(src.raw(12));
			log += (which ? "t" : "u") + std::to_string(operation) + " ";
			if (model.empty() && operation > 2) operation = 0;
			auto at = [&] { return size_t(src.raw(model.size() - 1)); };
			switch (operation) {
				case 0: case 1: {
					Content made = randomContent(src);
					withLambda(src, made, [&] <typename L> (L&& lambda) {
						if (which) { typed.push_back(std::forward<L>(lambda)); local(typed.back(), made); }
						else { untyped.push_back(std::forward<L>(lambda)); local(untyped.back(), made); }
					});
					model.push_back(made);
					break;
				}
				case 2: {
					if (which) break; // Lambdas that can't be copied
					int64_t value = int8_t(src.integer());
					untyped.push_back(lambda(MoveOnly(value)));
					untypedModel.push_back({9, value});
					break;
				}
				case 3: {
					size_t i = at();
					model.erase(model.begin() + i);
					if (which) typed.erase(typed.begin() + i); else untyped.erase(untyped.begin() + i);
					moves++;
					break;
				}
				case 4: {
					size_t i = at(), j = at();
					if (i == j) break;
					std::swap(model[i], model[j]);
					if (which) std::swap(typed[i], typed[j]); else std::swap(untyped[i], untyped[j]);
					moves++;
					break;
				}
				case 5: {
					size_t i = at(), j = at();
					if (i == j) break;
					model[i] = model[j];
					model[j].movedFrom = true;
					if (which) typed[i] = std::move(typed[j]); else untyped[i] = std::move(untyped[j]);
					moves++;
					break;
				}
				case 6: {
					size_t i = at();
					Content made = randomContent(src);
					withLambda(src, made, [&] <typename L> (L&& lambda) {
						if (which) typed[i] = Typed(std::forward<L>(lambda)); else untyped[i] = RpcLambdaHolder(std::forward<L>(lambda));
					});
					model[i] = made;
					break;
				}
				case 7: {
					size_t i = at();
					std::rotate(model.begin(), model.begin() + i, model.end());
					if (which) std::rotate(typed.begin(), typed.begin() + i, typed.end()); else std::rotate(untyped.begin(), untyped.begin() + i, untyped.end());
					moves++;
					break;
				}
				case 8: {
					if (!which) break; // It can lose its type
					size_t i = at();
					untyped.push_back(std::move(typed[i]));
					untypedModel.push_back(typedModel[i]);
					typedModel[i].movedFrom = true;
					moves++;
					break;
				}
				case 9: {
					size_t i = at();
					if (which) { Typed other = std::move(typed[i]); if (!model[i].movedFrom) require(other(2) == model[i].value * 1000 + 2, "wrong result after a move"); }
					else { RpcLambdaHolder other = std::move(untyped[i]); if (!model[i].movedFrom) checkCall(src, *other, model[i]); }
					model[i].movedFrom = true;
					moves++;
					break;
				}
				case 10: { // It refers to something owned elsewhere
					if (which) break;
					Content made{0, int8_t(src.integer())};
					auto referred = lambda(Words<1>(made.value));
					referees.push_back(std::make_unique<RpcLambda<decltype(referred)>>(std::move(referred)));
					size_t i = at();
					if (src.coin()) {
						untyped[i] = RpcLambdaHolder::nonOwning(*referees.back());
						model[i] = made;
					} else {
						untyped.push_back(RpcLambdaHolder::nonOwning(*referees.back()));
						model.push_back(made);
					}
					break;
				}
				default:
					if (which) callTyped(at()); else callUntyped(at());
			}
			size_t expected = 0;
			for (auto* contents : {&typedModel, &untypedModel}) for (auto& it : *contents) expected += it.tracked();
			requireEqual(expected, instances.size(), "number of living instances of captured data");
		}
		src.note(log);
		for (size_t i = 0; i < typed.size(); i++) callTyped(i);
		for (size_t i = 0; i < untyped.size(); i++) callUntyped(i);
		src.nontrivial = moves > 1 && typed.size() + untyped.size() > 1;
		src.labelIf(moves > 5, "over 5 moves"); src.labelIf(steps > 20, "over 20 steps");
	}
	requireEqual(0u, instances.size(), "number of living instances of captured data at the end");
}

struct Counting : RpcObject<Counting> {
	Tracked<8> state;
	std::string text = "a text";
	RpcMember<[] (Counting* parent, int64_t value = name("value")) { return parent->state.get() * 1000 + value; }> sum = child<"sum">;
	RpcMember<[] (Counting* parent, int64_t value = name("value")) { return parent->state.get() * 2000 + value; }> other = child<"other">;
	Counting(int64_t value) : state(value) {}
};

struct Node {
	bool dynamic = false, isObject = false;
	Counting* object = nullptr; // Accessible directly
	Content content;
	Typed* typed = nullptr;
	std::vector<std::pair<std::string, std::shared_ptr<Node>>> children;
	const Node* find(std::string_view name) const {
		for (auto& [childName, child] : children) if (childName == name) return child.get();
		return nullptr;
	}
	int size() const { int r = 1; for (auto& it : children) r += it.second->size(); return r; }
	int depth() const { int r = 0; for (auto& it : children) r = std::max(r, it.second->depth() + 1); return r; }
};
using Tree = std::shared_ptr<Node>;

static const std::string separators[] = {"/", ".", "::", "-->", "aab"};
static std::string pathOf(const IRemoteCallable* callable, int separator) {
	switch (separator) {
		case 0: return PathWithSeparator<"/">::constructPath(callable);
		case 1: return PathWithSeparator<".">::constructPath(callable);
		case 2: return PathWithSeparator<"::">::constructPath(callable);
		case 3: return PathWithSeparator<"-->">::constructPath(callable);
		default: return PathWithSeparator<"aab">::constructPath(callable);
	}
}
static const IRemoteCallable* callableAt(std::string_view path, const IRemoteCallable* root, int separator) {
	switch (separator) {
		case 0: return PathWithSeparator<"/">::findCallable(path, root);
		case 1: return PathWithSeparator<".">::findCallable(path, root);
		case 2: return PathWithSeparator<"::">::findCallable(path, root);
		case 3: return PathWithSeparator<"-->">::findCallable(path, root);
		default: return PathWithSeparator<"aab">::findCallable(path, root);
	}
}
struct Found { const IRemoteCallable* callable; const Node* node; std::vector<std::string> names; };

static void verify(Src& src, const IRemoteCallable& callable, const Node& node, std::vector<std::string>& names, std::vector<Found>& found) {
	found.push_back({&callable, &node, names});
	if (!node.dynamic) {
		checkCall(src, callable, node.content);
		require(!callable.getChild(0) && !callable.getChild("a"), "a lambda has a child");
		if (node.typed) requireEqual(node.content.value * 1000 + 3, (*node.typed)(3), "result of a direct call");
		return;
	}
	Json::Input in("{}");
	ExpandingBuffer<> buffer;
	Json::Output out(buffer);
	require(!callable.call(&in, out, [] { fail("a result of an object"); }, [] (std::string_view) { fail("error instead of not being callable"); }), "an object can be called");
	for (size_t i = 0; i < node.children.size(); i++) {
		auto& [name, child] = node.children[i];
		const IRemoteCallable* byIndex = callable.getChild(int(i));
		require(byIndex, "a child is missing");
		auto [knownName, index] = callable.childName(byIndex);
		requireEqual(name, std::string(knownName), "name of a child");
		requireEqual(int(i), index, "index of a child");
		require(byIndex->parent() == &callable, "a child has another parent");
		const IRemoteCallable* byName = callable.getChild(name);
		require(byName, "a child can't be found by name");
		if (node.find(name) == child.get()) require(byName == byIndex, "another child was found by name");
		names.push_back(name);
		verify(src, *byIndex, *child, names, found);
		names.pop_back();
	}
	require(!callable.getChild(int(node.children.size())), "a child behind the last one");
	require(!callable.getChild(int(node.children.size() + 1 + src.raw(300))), "a child behind the last one");
	std::string other = src.text(Src::IDENT, 4);
	if (!node.find(other)) require(!callable.getChild(other), "a child that was not added");
	if (node.object) requireEqual(node.children[0].second->content.value * 1000 + 3, node.object->sum(3), "result of a direct call of a method");
	if (!node.isObject) require(callable.childName(&callable).second == IRemoteCallable::NO_SUCH_STRUCTURE, "an object is its own child");
}
static std::string joined(const std::vector<std::string>& names, const std::string& separator) {
	std::string r;
	for (auto& it : names) r += (&it == &names[0] ? "" : separator) + it;
	return r;
}
static const Node* reference(const Node* root, std::string_view path, std::string_view separator) {
	while (root && !path.empty()) {
		size_t end = path.find(separator);
		root = root->find(path.substr(0, end));
		path = end == std::string_view::npos ? std::string_view() : path.substr(end + separator.size());
	}
	return root;
}
static void checkPaths(Src& src, const std::vector<Found>& found) {
	int separator = int(src.raw(std::size(separators) - 1));
	const std::string& text = separators[separator];
	const Found& root = found[0];
	std::vector<std::string> parts = {"", "a", "nothing"};
	for (auto& it : found) {
		std::string path = joined(it.names, text);
		bool usable = true;
		for (auto& name : it.names) usable = usable && name.find(text) == std::string::npos && !name.empty();
		if (it.node->find("")) usable = usable && true;
		requireEqual(path, pathOf(it.callable, separator), "path");
		const Node* expected = reference(root.node, path, text);
		const IRemoteCallable* real = callableAt(path, root.callable, separator);
		// Ambiguities (duplicate names, concatenations that make another separator) are resolved the same way as in the reference
		for (auto& other : found) if (other.node == expected) require(real == other.callable, "another callable was found at a path");
		if (!expected) require(!real, "a callable at a path that does not exist");
		for (auto& name : it.names) parts.push_back(name);
	}
	for (int i = 0; i < 5; i++) {
		std::string path;
		for (int j = int(src.raw(5)); j > 0; j--) {
			path += parts[src.raw(parts.size() - 1)];
			if (src.chance(3, 4)) path += text;
			else if (src.coin()) path += text.substr(0, 1 + src.raw(text.size() - 1));
		}
		const Node* expected = reference(root.node, path, text);
		const IRemoteCallable* real = callableAt(path, root.callable, separator);
		if (!expected) require(!real, "a callable at a path that does not exist");
		else for (auto& other : found) if (other.node == expected) require(real == other.callable, "another callable was found at a path");
	}
}

// Stands for the network
struct Remote : IRpcResponder {
	std::vector<std::string> paths;
	std::map<uint32_t, std::string> responses;
	uint32_t last = 0;
	RequestToken send(UserId, const IRemoteCallable* method, Callback<void(IStructuredOutput&, RequestToken)> request) override {
		paths.push_back(PathWithSeparator<"/">::constructPath(method));
		ExpandingBuffer<> buffer;
		Json::Output out(buffer);
		RequestToken token{++last};
		request(out, token);
		responses[token.id] = std::to_string(std::string_view(buffer).size() + 100000000);
		return token;
	}
	bool getResponse(RequestToken token, Callback<void(IStructuredInput&)> reader) override {
		Json::Input in(responses.at(token.id));
		reader(in);
		return true;
	}
};

static void objects(Src& src) {
	instances.clear();
	{
		std::vector<std::unique_ptr<Typed>> typed; // Must outlive the objects
		struct Root { std::unique_ptr<DynamicRpcObject> object; Tree tree; bool pinned = false; };
		std::vector<Root> roots;
		struct Loose { RpcLambdaHolder holder; Tree tree; };
		std::vector<Loose> loose;
		std::string log;
		auto newRoot = [&] { Root r{std::make_unique<DynamicRpcObject>(), std::make_shared<Node>()}; r.tree->dynamic = true; roots.push_back(std::move(r)); };
		auto leaf = [&] {
			auto node = std::make_shared<Node>();
			node->content = randomContent(src);
			return node;
		};
		auto name = [&] (const Node& in) {
			for (int i = 0; i < 10; i++) {
				std::string r = src.chance(2, 3) ? src.text(Src::IDENT, 3) : src.text(Src::UTF8, 6);
				if (!in.find(r) && r.find('/') == std::string::npos && !r.empty()) return r;
			}
			return "child" + std::to_string(in.children.size());
		};
		newRoot();
		std::vector<std::unique_ptr<Counting>> countings; // Must outlive the objects
		auto counting = [&] (int64_t value) {
			auto node = std::make_shared<Node>();
			node->dynamic = node->isObject = true;
			auto first = std::make_shared<Node>(), second = std::make_shared<Node>();
			first->content = {-1, value};
			second->content = {-1, value * 2};
			node->children = {{"sum", first}, {"other", second}};
			return node;
		};
		int steps = 2 + int(src.raw(src.coin() ? 30 : 80));
		int relocations = 0;
		for (int step = 0; step < steps; step++) {
			int operation = std::array{0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 8, 9, 10, 11, 12}[src.raw(14)];
			Root& root = roots[src.raw(roots.size() - 1)];
			Node& tree = *root.tree;
			log += std::to_string(operation) + " ";
			switch (operation) {
				case 0:
					newRoot();
					break;
				case 1: case 2: {
					auto made = leaf();
					std::string called = name(tree);
					withLambda(src, made->content, [&] <typename L> (L&& lambda) { root.object->add(called, std::forward<L>(lambda)); });
					tree.children.emplace_back(called, made);
					break;
				}
				case 3: {
					auto made = leaf();
					withLambda(src, made->content, [&] <typename L> (L&& lambda) { typed.push_back(std::make_unique<Typed>(std::forward<L>(lambda))); });
					made->typed = typed.back().get();
					std::string called = name(tree);
					root.object->add(called, RpcLambdaHolder::nonOwning(**made->typed));
					tree.children.emplace_back(called, made);
					break;
				}
				case 4: {
					auto made = leaf();
					withLambda(src, made->content, [&] <typename L> (L&& lambda) { loose.push_back({std::forward<L>(lambda), made}); });
					break;
				}
				case 5: { // Put into a holder
					if (root.pinned) break;
					size_t index = &root - roots.data();
					loose.push_back({std::move(*root.object), root.tree});
					roots.erase(roots.begin() + index);
					if (roots.empty()) newRoot();
					relocations++;
					break;
				}
				case 6: { // Put into another object
					size_t index = &root - roots.data();
					size_t target = src.raw(roots.size() - 1);
					if (target == index || root.pinned) break;
					std::string called = name(*roots[target].tree);
					roots[target].object->add(called, std::move(*root.object));
					roots[target].tree->children.emplace_back(called, root.tree);
					roots.erase(roots.begin() + index);
					relocations++;
					break;
				}
				case 7: { // Move elsewhere
					if (root.pinned) break;
					root.object = std::make_unique<DynamicRpcObject>(std::move(*std::unique_ptr<DynamicRpcObject>(std::move(root.object))));
					relocations++;
					break;
				}
				case 8: {
					if (loose.empty()) break;
					size_t index = src.raw(loose.size() - 1);
					std::string called = name(tree);
					root.object->add(called, std::move(loose[index].holder));
					tree.children.emplace_back(called, loose[index].tree);
					loose.erase(loose.begin() + index);
					relocations++;
					break;
				}
				case 10: case 11: { // An object with methods, moved there
					auto made = counting(int8_t(src.integer()));
					auto object = std::make_unique<Counting>(made->children[0].second->content.value);
					if (operation == 10) {
						std::string called = name(tree);
						root.object->add(called, std::move(*object));
						tree.children.emplace_back(called, made);
					} else loose.push_back({std::move(*object), made});
					break;
				}
				case 12: {
					auto made = counting(int8_t(src.integer()));
					countings.push_back(std::make_unique<Counting>(made->children[0].second->content.value));
					made->object = countings.back().get();
					std::string called = name(tree);
					root.object->add(called, RpcLambdaHolder::nonOwning(*made->object));
					tree.children.emplace_back(called, made);
					break;
				}
				case 9: {
					std::vector<std::string> names;
					std::vector<Found> found;
					verify(src, *root.object, tree, names, found);
					break;
				}
			}
		}
		src.note(log);
		int largest = 0, deepest = 0;
		auto check = [&] (const IRemoteCallable& callable, const Tree& tree) {
			std::vector<std::string> names;
			std::vector<Found> found;
			require(!callable.parent(), "an object that is in no object has a parent");
			verify(src, callable, *tree, names, found);
			requireEqual(tree->size(), int(found.size()), "number of callables");
			checkPaths(src, found);
			largest = std::max(largest, tree->size());
			deepest = std::max(deepest, tree->depth());
		};
		for (auto& it : roots) check(*it.object, it.tree);
		for (auto& it : loose) check(*it.holder, it.tree);

		// One of them is remote from now on
		Remote remote;
		size_t chosen = src.raw(roots.size() - 1);
		roots[chosen].object->setResponder(remote);
		size_t calls = 0;
		std::function<void(const Node&, std::string, bool)> callAll = [&] (const Node& node, std::string path, bool isRemote) {
			for (auto& [name, child] : node.children) {
				std::string childPath = path.empty() ? name : path + "/" + name;
				callAll(*child, childPath, isRemote);
				if (!child->typed && !child->object) continue;
				int64_t result = child->object ? child->object->sum(5) : (*child->typed)(5);
				if (isRemote) {
					requireEqual(++calls, remote.paths.size(), "number of remote calls");
					requireEqual(childPath + (child->object ? "/sum" : ""), remote.paths.back(), "path of a remote call");
					require(result > 100000000, "result of a remote call");
				} else requireEqual((child->object ? child->children[0].second->content.value : child->content.value) * 1000 + 5, result, "result of a local call");
			}
		};
		for (auto& it : roots) callAll(*it.tree, "", &it == &roots[chosen]);
		for (auto& it : loose) callAll(*it.tree, "", false);
		requireEqual(calls, remote.paths.size(), "number of remote calls");
		src.labelIf(deepest > 2, "nested in more than 2 levels"); src.labelIf(largest > 10, "over 10 callables"); src.labelIf(calls > 0, "remote calls");
		src.nontrivial = largest > 3 && relocations > 0;
		roots.clear();
		loose.clear();
	}
	requireEqual(0u, instances.size(), "number of living instances of captured data at the end");
}

PBT_MAIN({"holders", holders, 200000, 4000000}, {"objects", objects, 60000, 1500000})
