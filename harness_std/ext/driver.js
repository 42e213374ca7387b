// Runs one rendered browser extension per input line against stand-ins for the editor's classes and reports what it did.
'use strict';
const vm = require('vm');

// ---- a small DOM with the two behaviours that matter: live collections and static query results ----
class Text { constructor(t) { this.data = t; this.parentNode = null; } get children() { return []; } }
class Element {
    constructor(tag, attrs) { this.tagName = tag; this.attrs = attrs; this.childNodes = []; this.parentNode = null; }
    get nodeName() { return this.tagName; }
    get parentElement() { return this.parentNode; }
    get children() { return this.childNodes.filter(x => x instanceof Element); }
    get documentElement() { return this.children[0]; }
    append(n) { n.parentNode = this; this.childNodes.push(n); }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    removeChild(n) { const i = this.childNodes.indexOf(n); if (i < 0) throw new Error('NotFoundError'); this.childNodes.splice(i, 1); n.parentNode = null; return n; }
    all(tag, res) { for (const c of this.children) { if (tag === '*' || c.tagName === tag) res.push(c); c.all(tag, res); } return res; }
    getElementsByTagName(tag) { return live(() => this.all(tag, [])); }
    querySelectorAll(sel) { const tags = sel.split(',').map(x => x.trim()); return this.all('*', []).filter(x => tags.includes(x.tagName)); }
    querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
}
function live(f) {
    return new Proxy({}, { get(_, k) {
        if (k === Symbol.iterator) return function* () { let i = 0; while (true) { const l = f(); if (i >= l.length) return; yield l[i++]; } };
        if (k === 'length') return f().length;
        if (k === 'item') return i => f()[i] || null;
        return f()[k];
    }, has(_, k) { return k in f(); } });
}
const unesc = s => s.replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&quot;/g, '"').replace(/&amp;/g, '&');
const esc = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/"/g, '&quot;');
function parseXML(src) {
    const doc = new Element('#document', []);
    let at = doc;
    for (const m of src.matchAll(/<\/([^>]+)>|<([^\s\/>]+)((?:\s+[^\s=]+="[^"]*")*)\s*(\/?)>|([^<]+)/g)) {
        if (m[1]) at = at.parentNode;
        else if (m[2]) {
            const e = new Element(m[2], [...m[3].matchAll(/([^\s=]+)="([^"]*)"/g)].map(a => [a[1], unesc(a[2])]));
            at.append(e);
            if (!m[4]) at = e;
        } else at.append(new Text(unesc(m[5])));
    }
    return doc;
}
function writeXML(n) {
    if (n instanceof Text) return esc(n.data);
    if (n.tagName === '#document') return n.childNodes.map(writeXML).join('');
    const open = n.tagName + n.attrs.map(a => ` ${a[0]}="${esc(a[1])}"`).join('');
    return n.childNodes.length ? `<${open}>${n.childNodes.map(writeXML).join('')}</${n.tagName}>` : `<${open}/>`;
}

function runCase(input) {
    let now = 0, seq = 0;
    let timers = [], events = [], buttons = [], texts = [], pending = [], registered = [];
    const ev = (...x) => events.push(x);

    function Morph() { this.children = []; this.bounds = new Rect(); this.visible = true; }
    class Rect { setWidth() {} setHeight() {} }
    const m = Morph.prototype;
    for (const f of ['init', 'createLabel', 'fixLayout', 'rerender', 'changed', 'popUp', 'setWidth', 'setHeight', 'setExtent', 'setTop', 'setBottom', 'setLeft', 'setRight', 'setCenter', 'setPosition', 'addContents', 'destroy', 'drawNew', 'fixHolesLayout']) m[f] = function () {};
    for (const f of ['width', 'height', 'top', 'bottom', 'left', 'right', 'center', 'extent', 'position']) m[f] = function () { return 0; };
    m.add = function (x) { (this.children = this.children || []).push(x); };
    m.hide = function () { this.visible = false; };
    m.show = function () { this.visible = true; };
    const sub = init => { function F(...a) { Morph.call(this); if (init) init.apply(this, a); } F.prototype = Object.create(Morph.prototype); F.prototype.constructor = F; return F; };
    const DialogBoxMorph = sub();
    DialogBoxMorph.prototype.init = function () { this.children = []; this.bounds = new Rect(); this.corner = 0; this.label = new Morph(); };
    DialogBoxMorph.prototype.bounds = new Rect();
    const CommentMorph = sub(function (text) { this.text = text; this.titleBar = {}; this.contents = {}; });
    CommentMorph.prototype.destroy = function () { if (this.block) delete this.block.comment; this.block = null; };
    CommentMorph.prototype.align = function () {};
    CommentMorph.prototype.fullCopy = function () { return new CommentMorph(this.text); };
    const SymbolMorph = sub(function (name) { this.name = name; });
    const PushButtonMorph = sub(function (target, action, labelString) { this.target = target; this.action = action; this.labelString = labelString; this.label = new Morph(); buttons.push(this); });
    const TextMorph = sub(function (t) { this.text = t; texts.push(this); });
    const ScrollFrameMorph = sub(function () { this.contents = new Morph(); });
    const InputSlotMorph = sub(function (text, numeric, choices, readonly) { Object.assign(this, { text, numeric, choices, readonly }); });
    class Extension { constructor(name) { this.name = name; } }
    Extension.Category = class { constructor(...a) { this.args = a; } };
    Extension.Palette = class {};
    Extension.Palette.Block = class { constructor(name) { this.name = name; } };
    Extension.PaletteCategory = class { constructor(cat, blocks, cls) { Object.assign(this, { cat, blocks, cls }); } };
    Extension.Block = class { constructor(name, type, category, spec, defaults, action) { Object.assign(this, { name, type, category, spec, defaults, action }); } };
    Extension.LabelPart = class { constructor(spec, factory) { Object.assign(this, { spec, factory }); } };

    class XMLHttpRequest {
        constructor() { this.readyState = 0; this.status = 0; this.responseText = ''; this.onreadystatechange = null; }
        open(method, url) { this.method = method; this.url = url; this.readyState = 1; if (this.onreadystatechange) this.onreadystatechange(); }
        setRequestHeader() {}
        send(body) { pending.push(this); ev('xhr', this.method, this.url, body === undefined || body === null ? null : String(body)); }
        answer(status, text) {
            for (const s of [2, 3, 4]) {
                this.readyState = s;
                if (s === 2) this.status = status;
                if (s === 4) { this.responseText = text; this.response = text; }
                if (this.onreadystatechange) this.onreadystatechange();
            }
            if (this.onload) this.onload();
        }
    }
    Object.assign(XMLHttpRequest, { UNSENT: 0, OPENED: 1, HEADERS_RECEIVED: 2, LOADING: 3, DONE: 4 });

    // ---- the project on screen ----
    const blocks = [];
    const node = d => {
        const b = Object.assign(new Morph(), { id: d.id || undefined });
        if (d.block) {
            blocks.push(b);
            if (d.comment) { const c = new CommentMorph(d.comment); c.block = b; b.comment = c; }
        }
        b.children = d.children.map(node);
        return b;
    };
    const custom = l => l.map(d => d ? { body: { expression: node(d) } } : { body: null });
    const world = node(input.world);
    let xml = '';
    const ide = {
        stage: { globalBlocks: custom(input.globalBlocks), customBlocks: custom(input.stageBlocks) },
        sprites: { contents: input.spriteBlocks.map(l => ({ customBlocks: custom(l) })) },
        getSerializedRole: () => xml,
        droppedText: t => ev('dropped', String(t)),
    };

    const sandbox = {
        DialogBoxMorph, CommentMorph, SymbolMorph, PushButtonMorph, TextMorph, ScrollFrameMorph, InputSlotMorph, Morph, Extension, XMLHttpRequest, world,
        HandleMorph: sub(), AlignmentMorph: sub(), SpriteMorph: sub(), StageMorph: sub(),
        Color: class { constructor(...a) { this.args = a; } }, Point: class { constructor(x, y) { this.x = x; this.y = y; } },
        NetsBloxExtensions: { register: x => registered.push(x) },
        DOMParser: class { parseFromString(s) { return parseXML(s); } },
        XMLSerializer: class { serializeToString(n) { return writeXML(n); } },
        alert: (...a) => ev('alert', a.map(String)),
        console: { log() {}, info() {}, warn() { ev('warn'); }, error() { ev('console-error'); } },
        setTimeout: (f, ms) => { timers.push({ at: now + Math.max(0, +ms || 0), seq: seq++, f }); return seq - 1; },
        clearTimeout: id => { timers = timers.filter(t => t.seq !== id); },
    };
    sandbox.window = { open: (url, target) => ev('open', url, target) };
    vm.createContext(sandbox);
    const out = { steps: [] };
    try { new vm.Script(input.src).runInContext(sandbox); } catch (e) { out.loadError = String(e); return out; }
    out.registered = registered.length;
    if (registered.length !== 1) return out;
    const ext = new registered[0](ide);
    const tree = x => typeof x === 'string' ? x : Object.keys(x).map(k => [k, tree(x[k])]);
    const parts = ext.getLabelParts().filter(p => p.spec === 'syscall');
    out.parts = parts.length;
    if (parts.length === 1) { const slot = parts[0].factory(); out.menu = tree(slot.choices); out.readonly = !!slot.readonly; }
    out.blocks = ext.getBlocks().map(b => [b.name, b.type, b.spec]);
    out.palette = ext.getPalette().map(p => [p.cls === sandbox.SpriteMorph ? 'sprite' : p.cls === sandbox.StageMorph ? 'stage' : '?', p.blocks.map(b => b.name)]);

    const isToggle = l => l === '$' || l instanceof SymbolMorph && ['pause', 'pointRight'].includes(l.name);
    const find = name => buttons.filter(b => name === 'toggle' ? isToggle(b.labelString) : b.labelString === name || b.labelString instanceof SymbolMorph && b.labelString.name === name);
    for (const op of input.ops) {
        events = [];
        let note = null;
        try {
            if (op.op === 'menu') { const menu = ext.getMenu(); note = Object.keys(menu); menu[note[0]](); }
            else if (op.op === 'press') { const b = find(op.button); note = b.length; if (b.length === 1) b[0].action(); }
            else if (op.op === 'xml') xml = op.text;
            else if (op.op === 'tick') {
                const end = now + op.ms;
                let guard = 0;
                while (guard++ < 10000) {
                    timers.sort((a, b) => a.at - b.at || a.seq - b.seq);
                    if (!timers.length || timers[0].at > end) break;
                    const t = timers.shift();
                    now = t.at;
                    t.f();
                }
                note = guard;
                now = end;
            }
            else if (op.op === 'reply') { const p = pending.filter(x => x.url.endsWith(op.path) && (!op.method || x.method === op.method)); note = p.length; if (p.length) { pending.splice(pending.indexOf(p[0]), 1); p[0].answer(op.status, op.body); } }
            else if (op.op === 'destroy') { const c = blocks[op.block].comment; note = !!c; if (c) c.destroy(); }
        } catch (e) { ev('throw', String(e)); }
        const toggles = buttons.filter(b => isToggle(b.labelString)).map(b => b.labelString === '$' ? '$' : b.labelString.name);
        const t = texts.length ? String(texts[texts.length - 1].text) : null;
        out.steps.push({ events, note, toggles, terminals: texts.length, len: t === null ? -1 : t.length, tail: t === null ? '' : t.slice(-60).toWellFormed(), sum: t === null ? 0 : sum(t), comments: blocks.map(b => b.comment ? String(b.comment.text) : null) });
    }
    return out;
}
function sum(t) { let h = 0; for (let i = 0; i < t.length; i++) h = (Math.imul(h, 31) + t.charCodeAt(i)) >>> 0; return h; }

require('readline').createInterface({ input: process.stdin }).on('line', line => {
    let out;
    try { out = runCase(JSON.parse(line)); } catch (e) { out = { crash: String(e && e.stack) }; }
    process.stdout.write(JSON.stringify(out) + '\n');
});
