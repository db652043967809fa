// Runs a script of the web interface with a stand-in for the browser and jQuery.
// Takes a scenario as its argument, writes the addresses that the script navigates to.
import { pathToFileURL } from 'node:url';

const c = JSON.parse(process.argv[2]);
const went = [];
let href = c.href;
const go = (v) => {
	// What a browser asks for: without the fragment.
	const u = new URL(String(v), href);
	went.push({ path: u.pathname, query: u.search.replace(/^\?/, '') });
};
const location = {
	get href() { return href; },
	set href(v) { go(v); },
	get search() { return new URL(href).search; },
	get hash() { return new URL(href).hash; },
	get origin() { return new URL(href).origin; },
	get pathname() { return new URL(href).pathname; },
	assign: go,
	replace: go,
	toString() { return href; },
};
const stored = new Map(c.stored || []);
const handlers = new Map(); // element -> event -> functions
const values = new Map();
const options = new Map();
const elements = new Map();
const rows = [];
// A page stays there when a script of it fails.
const errors = [];
const run = (f) => { try { return f(); } catch (e) { errors.push(String(e)); } };
const element = (sel) => {
	if (typeof sel !== 'string') return sel;
	if (!elements.has(sel)) elements.set(sel, { sel });
	return elements.get(sel);
};
const on = (el, ev, f) => {
	if (!handlers.has(el)) handlers.set(el, new Map());
	const m = handlers.get(el);
	if (!m.has(ev)) m.set(ev, []);
	m.get(ev).push(f);
};
const fire = (el, ev) => {
	const event = { preventDefault() {}, stopPropagation() {}, target: el, currentTarget: el };
	for (const f of handlers.get(el)?.get(ev) || []) run(() => f.call(el, event));
};
function wrap(el) {
	const known = {
		ready(f) { run(f); return self; },
		val(v) {
			if (arguments.length === 0) return values.has(el) ? values.get(el) : null;
			const o = options.get(el);
			values.set(el, o && !o.includes(v) ? null : v);
			return self;
		},
		on(ev, f) { on(el, ev, f); return self; },
		trigger(ev) { fire(el, ev); return self; },
		is(what) { return what === ':checked' && values.get(el) === true; },
		prop(name) { return name === 'checked' ? values.get(el) === true : name === 'value' ? values.get(el) : undefined; },
		attr(name, v) {
			if (arguments.length > 1) return self;
			return el === location ? location[name] : undefined;
		},
		empty() { if (options.has(el)) { options.set(el, []); values.set(el, null); } return self; },
		append(o) { if (o && 'value' in o && options.has(el)) options.get(el).push(o.value); return self; },
		DataTable() {
			const add = () => {
				const node = { row: rows.length };
				rows.push(node);
				const r = { draw: () => r, node: () => node };
				return r;
			};
			return { row: Object.assign(() => ({ select() {} }), { add }), draw() {} };
		},
		length: 1,
	};
	for (const ev of ['change', 'click', 'dblclick']) {
		known[ev] = (f) => { if (f) on(el, ev, f); else fire(el, ev); return self; };
	}
	const self = new Proxy(known, { get: (t, k) => (k in t ? t[k] : typeof k === 'symbol' || k === 'then' ? undefined : () => self) });
	return self;
}
const $ = (x) => {
	if (typeof x === 'function') { run(x); return wrap({}); }
	return wrap(element(x));
};
const json = (url, data, cb) => {
	if (typeof data === 'function') cb = data;
	const u = new URL(url, href);
	const answer = u.pathname === '/branches' ? { branch: c.branches || [] } : c.requests || [];
	const quiet = (f) => f && run(() => f(answer));
	quiet(cb);
	const p = { done(f) { quiet(f); return p; }, then(f) { quiet(f); return p; }, fail: () => p, always(f) { quiet(f); return p; } };
	return p;
};
$.getJSON = json;
$.get = json;
const quiet = () => {};
Object.assign(globalThis, {
	$, jQuery: $, alert: quiet,
	Option: function (text, value) { this.text = text; this.value = value; },
	localStorage: { getItem: (k) => (stored.has(k) ? stored.get(k) : null), setItem: (k, v) => void stored.set(k, String(v)), removeItem: (k) => void stored.delete(k) },
	document: { getElementById: (id) => ({ id, scrollIntoView() {} }), querySelectorAll: () => [], addEventListener: quiet, body: { classList: { add: quiet, remove: quiet } } },
});
Object.defineProperty(globalThis, 'location', { value: location, configurable: true });
Object.defineProperty(globalThis, 'window', { value: globalThis, configurable: true });
const log = console.log;
for (const k of ['log', 'debug', 'info', 'warn', 'error']) console[k] = quiet;
for (const id of ['#firstSelect', '#secondSelect']) options.set(element(id), []);
try { await import(pathToFileURL(c.script)); } catch (e) { errors.push(String(e)); }
// What the user does: ['choose', element, value], ['click', element] or ['dblclick', row].
for (const [what, el, v] of c.acts) {
	const e = what === 'dblclick' ? rows[el] : element(el);
	if (!e) continue;
	if (what === 'choose') {
		wrap(e).val(v);
		fire(e, 'change');
	} else {
		fire(e, what);
	}
}
const shown = {};
for (const id of ['#selectedRepo', '#selectedFirst', '#selectedSecond']) shown[id] = values.get(element(id)) ?? null;
log(JSON.stringify({ went, rows: rows.length, shown, errors }));
