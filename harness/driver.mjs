// Runs the JavaScript client. Commands arrive on the standard input, one JSON object per line.
// Requests of the client are sent as {fetch: number, url, options} and answered by {answer: number, status, body}.
import fs from "node:fs";
import vm from "node:vm";

const source = fs.readFileSync(process.argv[2], "utf8");
const send = (value) => { fs.writeSync(1, JSON.stringify(value) + "\n"); };

let fetches = 0;
const waiting = new Map();
const fetchStub = (url, options) => {
	const id = fetches++;
	send({ fetch : id, url : String(url), options : options ?? null });
	return new Promise((resolve, reject) => { waiting.set(id, { resolve, reject }); });
};

class Element {
	constructor(tag) {
		this.tag = tag;
		this.children = [];
		this.attributes = {};
		this.value = "";
		this.checked = false;
		this.textContent = "";
	}
	appendChild(child) {
		if (!(child instanceof Element)) throw new TypeError("Not an element");
		this.children.push(child);
		return child;
	}
	setAttribute(name, value) { this.attributes[name] = value; }
	all(filter) {
		let result = filter(this) ? [this] : [];
		for (const child of this.children) result = result.concat(child.all(filter));
		return result;
	}
}
globalThis.document = { createElement : (tag) => new Element(tag) };

let api, types, service;

const makeValue = (spec) => {
	if (spec === null || typeof spec !== "object") return spec;
	if (Array.isArray(spec)) return spec.map(makeValue);
	if (spec.$undefined) return undefined;
	if (spec.$class) {
		const values = spec.$members.map(([name, value]) => [name, makeValue(value)]);
		if (spec.$construct) return new types[spec.$class](...values.map(([name, value]) => value));
		const made = new types[spec.$class]();
		for (const [name, value] of values) made[name] = value;
		return made;
	}
	const result = {};
	for (const [name, value] of Object.entries(spec.$map)) result[name] = makeValue(value);
	return result;
};
const find = (path) => {
	let at = api;
	for (const part of path) at = at[part];
	return at;
};
const describeError = (error) => typeof error === "string" ? { thrown : error } : { thrown : null, exception : String(error) };

const run = async (command) => {
	if (command.load !== undefined) {
		if (command.window) { globalThis.window = {}; globalThis.fetch = fetchStub; }
		else { delete globalThis.window; globalThis.fetch = () => { throw new Error("fetch is not available"); }; }
		const module = new vm.SourceTextModule(source, { importModuleDynamically : async (name) => {
			if (name !== "node-fetch") throw new Error("No such module " + name);
			const made = new vm.SyntheticModule(["default"], function() { this.setExport("default", fetchStub); });
			await made.link(() => {});
			await made.evaluate();
			return made;
		} });
		await module.link(() => { throw new Error("Nothing should be imported"); });
		await module.evaluate();
		[api, types, service] = await (command.load === null ? module.namespace.loadApi() : module.namespace.loadApi(command.load));
		const list = (object, path) => Object.entries(object).flatMap(([name, value]) => typeof value === "function" ?
				(name === "gui" ? [] : [[...path, name]]) : list(value, [...path, name]));
		return { methods : list(api, []), sources : list(api, []).map((path) => String(find(path).source)), types : Object.fromEntries(Object.keys(types).map((name) => [name, Object.keys(new types[name]())])), service };
	} else if (command.calls) {
		return await Promise.all(command.calls.map(async ({ path, args }) => {
			try {
				const result = await find(path)(...args.map(makeValue));
				return result === undefined ? { undefined : true } : { result };
			} catch (error) {
				return describeError(error);
			}
		}));
	} else if (command.gui) {
		const made = find(command.gui).gui();
		const inputs = made.all((element) => element.tag === "input");
		if (inputs.length !== command.fields.length) return { fields : inputs.length };
		inputs.forEach((input, index) => {
			const value = command.fields[index];
			if (typeof value === "boolean") input.checked = value;
			else input.value = String(value);
		});
		const kinds = inputs.map((input) => input.type === "checkbox" ? "boolean" : input.attributes.type === "number" ? "number" : "string");
		const buttons = made.all((element) => element.tag === "button");
		if (buttons.length !== 1) return { buttons : buttons.length };
		try {
			await buttons[0].onclick();
		} catch (error) {
			return { ...describeError(error), kinds };
		}
		return { kinds, shown : made.all((element) => element.className === "bombaResultSpace").map((element) => element.textContent) };
	} else if (command.wholeGui) {
		return { questionnaires : api.gui().all((element) => element.className === "bombaQuestionnaire").length };
	}
};

const processLine = async (line) => {
	const command = JSON.parse(line);
	if (command.answer !== undefined) {
		const { resolve, reject } = waiting.get(command.answer);
		waiting.delete(command.answer);
		if (command.broken) reject(new Error("network error"));
		else resolve(new Response(command.body, { status : command.status }));
		return;
	}
	try {
		send({ done : await run(command) });
	} catch (error) {
		send({ done : describeError(error), failed : true });
	}
};
let received = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", (data) => {
	received += data;
	for (let end; (end = received.indexOf("\n")) !== -1; ) {
		const line = received.slice(0, end);
		received = received.slice(end + 1);
		processLine(line);
	}
});
