// Runs the scripts of pages that TRAPpy makes, with stand-ins for the browser
// and the libraries (d3 v3, d3-tip, jQuery, dygraphs, require.js), and reports
// what they draw.  A request per line of standard input, an answer per line.
'use strict';
const vm = require('vm');
const fs = require('fs');
const readline = require('readline');

// ---------------------------------------------------------------- elements

class Node {
    constructor(tag) {
        this.tagName = tag.replace(/^.*:/, '');
        this.attrs = {};
        this.styles = {};
        this.text = '';
        this.html = '';
        this.children = [];
        this.parentNode = null;
        this.handlers = {};
        this.props = {};
    }
    add(child, before) {
        if (child.parentNode) child.detach();
        child.parentNode = this;
        const at = before ? this.children.indexOf(before) : -1;
        if (at < 0) this.children.push(child);
        else this.children.splice(at, 0, child);
        return child;
    }
    detach() {
        if (!this.parentNode) return;
        const list = this.parentNode.children;
        const at = list.indexOf(this);
        if (at >= 0) list.splice(at, 1);
        this.parentNode = null;
    }
    classes() {
        return String(this.attrs['class'] || '').split(/\s+/).filter(c => c);
    }
    matches(sel) {
        for (const one of sel.split(',')) {
            const parts = one.trim().split(/(?=[.#])/);
            if (parts.every(p => p[0] === '.' ?
                    this.classes().includes(p.slice(1)) :
                    p[0] === '#' ? this.attrs.id === p.slice(1) :
                    p === '*' || p === this.tagName))
                return true;
        }
        return false;
    }
    all(sel) {
        const out = [];
        const chain = sel.split(',').map(s => s.trim().split(/\s*>\s*|\s+/));
        const under = (node, steps) => {
            for (const child of node.children) {
                if (child.matches(steps[0])) {
                    if (steps.length === 1) out.push(child);
                    else under(child, steps.slice(1));
                }
                under(child, steps);
            }
        };
        for (const steps of chain) under(this, steps);
        return out.filter((n, i) => out.indexOf(n) === i);
    }
    attached(root) {
        let node = this;
        while (node.parentNode) node = node.parentNode;
        return node === root;
    }
    // What the DOM calls some of the above
    appendChild(child) { return this.add(child); }
    removeChild(child) { child.detach(); return child; }
    setAttribute(k, v) { this.attrs[k] = v; }
    getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
    addEventListener(k, f) { this.handlers[k] = f; }
    querySelector(sel) { return this.all(sel)[0] || null; }
    querySelectorAll(sel) { return this.all(sel); }
    getBoundingClientRect() { return {left: 0, top: 0}; }
    get id() { return this.attrs.id; }
    get firstChild() { return this.children[0] || null; }
}

// What the libraries have but these stand-ins don't
function supported(obj, name) {
    return new Proxy(obj, {get(target, key) {
        const val = target[key];
        if (typeof key === 'string' && !(key in target))
            throw new Error('UNSUPPORTED ' + name + '.' + key);
        return val !== null && typeof val === 'object' && key !== 'event' ?
            supported(val, name + '.' + key) : val;
    }});
}

const isWindow = what => what !== null && typeof what === 'object' &&
    !(what instanceof Node) && 'document' in what;

function makeWorld(request) {
    const root = new Node('body');
    const win = new Node('window');
    const widths = {};
    const byId = id => root.all('#' + id)[0] || null;
    const add = (id, width) => {
        const div = new Node('div');
        div.attrs.id = id;
        widths[id] = width;
        root.add(div);
    };
    for (const [id, width] of request.divs) add(id, width);

    // ------------------------------------------------------------ selections

    const d3 = {event: null};

    class Selection {
        constructor(groups) {
            // groups: [{parent, nodes, enter: null or array}]
            this.groups = groups;
            const self = this;
            groups.forEach((g, i) => { self[i] = g.nodes; });
            this.length = groups.length;
        }
        _each(fn) {
            this.groups.forEach((g, j) => g.nodes.forEach((n, i) => {
                if (n) fn.call(n, n.__data__, i, j);
            }));
            return this;
        }
        _value(val, node, i, j) {
            return typeof val === 'function' ?
                val.call(node, node.__data__, i, j) : val;
        }
        _set(where, key, val) {
            if (key !== null && typeof key === 'object') {
                for (const k in key) this._set(where, k, key[k]);
                return this;
            }
            const self = this;
            return this._each(function(d, i, j) {
                const v = self._value(val, this, i, j);
                if (v === null) delete this[where][key];
                else this[where][key] = v;
            });
        }
        attr(key, val) {
            if (arguments.length < 2 && typeof key === 'string')
                return this.node().getAttribute(key);
            return this._set('attrs', key, val);
        }
        style(key, val) {
            if (arguments.length < 2 && typeof key === 'string')
                return this.node().styles[key];
            return this._set('styles', key, val);
        }
        property(key, val) { return this._set('props', key, val); }
        classed(names, val) {
            return this._each(function() {
                let list = this.classes().filter(
                    c => !names.split(/\s+/).includes(c));
                if (val) list = list.concat(names.split(/\s+/));
                this.attrs['class'] = list.join(' ');
            });
        }
        text(val) {
            if (!arguments.length) return this.node().text;
            const self = this;
            return this._each(function(d, i, j) {
                const v = self._value(val, this, i, j);
                this.text = v === null || v === undefined ? '' : String(v);
            });
        }
        html(val) {
            if (!arguments.length) return this.node().html;
            const self = this;
            return this._each(function(d, i, j) {
                this.html = String(self._value(val, this, i, j));
            });
        }
        datum(val) {
            if (!arguments.length) return this.node().__data__;
            const self = this;
            return this._each(function(d, i, j) {
                this.__data__ = self._value(val, this, i, j);
            });
        }
        append(what) {
            const groups = this.groups.map((g, j) => ({
                parent: g.parent,
                nodes: g.nodes.map((n, i) => {
                    if (!n) return n;
                    const child = typeof what === 'function' ?
                        what.call(n, n.__data__, i, j) : new Node(what);
                    n.add(child);
                    if ('__data__' in n) child.__data__ = n.__data__;
                    return child;
                })
            }));
            return new Selection(groups);
        }
        insert(what, before) {
            const groups = this.groups.map(g => ({
                parent: g.parent,
                nodes: g.nodes.map(n => {
                    if (!n) return n;
                    const child = new Node(what);
                    n.add(child, before ? n.all(before)[0] : null);
                    if ('__data__' in n) child.__data__ = n.__data__;
                    return child;
                })
            }));
            return new Selection(groups);
        }
        remove() { return this._each(function() { this.detach(); }); }
        select(sel) {
            return new Selection(this.groups.map(g => ({
                parent: g.parent,
                nodes: g.nodes.map(n => {
                    if (!n) return null;
                    const child = n.all(sel)[0] || null;
                    if (child && '__data__' in n) child.__data__ = n.__data__;
                    return child;
                })
            })));
        }
        selectAll(sel) {
            const groups = [];
            for (const g of this.groups)
                for (const n of g.nodes)
                    if (n) groups.push({parent: n, nodes: n.all(sel)});
            return new Selection(groups);
        }
        data(values, key) {
            const enter = [], exit = [], update = [];
            this.groups.forEach((g, j) => {
                const data = typeof values === 'function' ?
                    values.call(g.parent, g.parent.__data__, j) : values;
                const nodes = new Array(data.length).fill(null);
                const left = g.nodes.slice();
                data.forEach((d, i) => {
                    let at = i < left.length ? i : -1;
                    if (key) at = left.findIndex(
                        n => n && key.call(n, n.__data__, 0) === key.call(
                            g.parent, d, i));
                    if (at >= 0 && left[at]) {
                        nodes[i] = left[at];
                        nodes[i].__data__ = d;
                        left[at] = null;
                    }
                });
                const group = {parent: g.parent, nodes: nodes};
                update.push(group);
                enter.push({group: group, data: data});
                exit.push({parent: g.parent, nodes: left});
            });
            const sel = new Selection(update);
            sel._enter = new Enter(enter);
            sel._exit = new Selection(exit);
            return sel;
        }
        enter() { return this._enter; }
        exit() { return this._exit; }
        filter(fn) {
            const test = typeof fn === 'function' ? fn : function() {
                return this.matches(fn);
            };
            return new Selection(this.groups.map((g, j) => ({
                parent: g.parent,
                nodes: g.nodes.filter(
                    (n, i) => n && test.call(n, n.__data__, i, j))
            })));
        }
        sort() { return this; }
        order() { return this; }
        each(fn) { return this._each(fn); }
        call(fn, ...args) { fn.call(this, this, ...args); return this; }
        on(type, fn) {
            if (arguments.length < 2) return this.node().handlers[type];
            return this._each(function() {
                if (fn === null) delete this.handlers[type];
                else this.handlers[type] = fn;
            });
        }
        transition() { return this; }
        duration() { return this; }
        delay() { return this; }
        ease() { return this; }
        interrupt() { return this; }
        node() {
            for (const g of this.groups)
                for (const n of g.nodes)
                    if (n) return n;
            return null;
        }
        empty() { return !this.node(); }
        size() {
            return this.groups.reduce(
                (a, g) => a + g.nodes.filter(n => n).length, 0);
        }
    }

    class Enter {
        constructor(list) { this.list = list; }
        append(what) {
            const groups = this.list.map((e, j) => {
                const nodes = e.group.nodes.map((old, i) => {
                    if (old) return null;
                    const child = new Node(what);
                    e.group.parent.add(child);
                    child.__data__ = e.data[i];
                    return child;
                });
                nodes.forEach((n, i) => { if (n) e.group.nodes[i] = n; });
                return {parent: e.group.parent, nodes: nodes};
            });
            return new Selection(groups);
        }
        insert(what) { return this.append(what); }
        empty() {
            return this.list.every(e => e.group.nodes.every(n => n));
        }
        size() {
            return this.list.reduce(
                (a, e) => a + e.group.nodes.filter(n => !n).length, 0);
        }
        call(fn, ...args) { fn.call(this, this, ...args); return this; }
    }

    const asNode = what => typeof what === 'string' ?
        (what === 'body' ? root : root.all(what)[0] || null) :
        isWindow(what) ? win : what;
    d3.select = what => new Selection([{parent: root, nodes: [asNode(what)]}]);
    d3.selectAll = what => new Selection([{parent: root, nodes:
        typeof what === 'string' ? root.all(what) : Array.from(what)}]);

    // ---------------------------------------------------------------- scales

    function linear(domain, range) {
        domain = domain || [0, 1];
        range = range || [0, 1];
        let clamp = false;
        const map = (from, to, v) => {
            const span = from[from.length - 1] - from[0];
            // A domain without extent has the middle, as in d3
            const t = span ? (v - from[0]) / span : 0;
            const k = clamp ? Math.max(0, Math.min(1, t)) : t;
            return to[0] * (1 - k) + to[to.length - 1] * k;
        };
        const scale = v => map(domain, range, +v);
        scale.invert = v => map(range, domain, +v);
        scale.domain = function(d) {
            if (!arguments.length) return domain.slice();
            domain = Array.from(d).map(Number);
            return scale;
        };
        scale.range = function(r) {
            if (!arguments.length) return range.slice();
            range = Array.from(r);
            return scale;
        };
        scale.rangeRound = r => scale.range(r);
        scale.clamp = function(c) {
            if (!arguments.length) return clamp;
            clamp = c;
            return scale;
        };
        scale.nice = () => scale;
        scale.ticks = () => domain.slice();
        scale.tickFormat = () => String;
        scale.copy = () => linear(domain.slice(), range.slice()).clamp(clamp);
        return scale;
    }

    function ordinal(range) {
        range = range || [];
        let domain = [];
        const scale = v => {
            let at = domain.indexOf(String(v));
            if (at < 0) at = domain.push(String(v)) - 1;
            return range[at % range.length];
        };
        scale.domain = function(d) {
            if (!arguments.length) return domain.slice();
            domain = [];
            for (const v of d)
                if (!domain.includes(String(v))) domain.push(String(v));
            return scale;
        };
        scale.range = function(r) {
            if (!arguments.length) return range.slice();
            range = Array.from(r);
            return scale;
        };
        scale.copy = () => ordinal(range.slice()).domain(domain);
        return scale;
    }

    const palette = n => Array.from({length: n}, (_, i) => '#c' + n + '_' + i);
    d3.scale = {
        linear: () => linear(),
        ordinal: () => ordinal(),
        category10: () => ordinal(palette(10)),
        category20: () => ordinal(palette(20)),
        category20b: () => ordinal(palette(20)),
        category20c: () => ordinal(palette(20))
    };
    const values = (arr, fn) => Array.from(arr).map(
        (v, i) => fn ? fn.call(arr, v, i) : v).filter(
            v => v !== null && v !== undefined && v === v);
    d3.min = (arr, fn) => values(arr, fn).reduce(
        (a, b) => a === undefined || b < a ? b : a, undefined);
    d3.max = (arr, fn) => values(arr, fn).reduce(
        (a, b) => a === undefined || b > a ? b : a, undefined);
    d3.extent = (arr, fn) => [d3.min(arr, fn), d3.max(arr, fn)];
    d3.sum = (arr, fn) => values(arr, fn).reduce((a, b) => a + +b, 0);
    d3.round = (x, n) => n ? Math.round(x * (n = Math.pow(10, n))) / n :
        Math.round(x);
    d3.range = (a, b, c) => {
        if (b === undefined) [a, b] = [0, a];
        const out = [];
        for (let v = a; v < b; v += c || 1) out.push(v);
        return out;
    };
    d3.keys = o => Object.keys(o);
    d3.values = o => Object.values(o);
    d3.entries = o => Object.keys(o).map(k => ({key: k, value: o[k]}));
    const bisect = right => (arr, x, lo, hi) => {
        lo = lo || 0;
        hi = hi === undefined ? arr.length : hi;
        while (lo < hi) {
            const mid = lo + hi >>> 1;
            if (right ? arr[mid] > x : arr[mid] >= x) hi = mid;
            else lo = mid + 1;
        }
        return lo;
    };
    d3.bisectLeft = bisect(false);
    d3.bisect = d3.bisectRight = bisect(true);
    d3.format = () => String;
    d3.functor = v => typeof v === 'function' ? v : () => v;

    // ------------------------------------------------- axes, zoom and brushes

    const axes = [], zooms = [], brushes = [], tips = [];
    d3.svg = {
        axis: () => {
            let scale = linear();
            const axis = sel => sel.each(function() {
                // As drawn now
                this.axis = {domain: scale.domain(), range: scale.range()};
                for (const old of this.children.filter(c => c.drawnByAxis))
                    old.detach();
                // Axes have paths and texts of their own
                for (const [tag, cls] of [['path', 'domain'],
                                          ['g', 'tick']]) {
                    const node = new Node(tag);
                    node.attrs['class'] = cls;
                    node.drawnByAxis = true;
                    this.add(node);
                }
            });
            axis.scale = function(s) {
                if (!arguments.length) return scale;
                scale = s;
                return axis;
            };
            for (const name of ['orient', 'ticks', 'tickSize', 'tickFormat',
                                'tickPadding', 'innerTickSize',
                                'outerTickSize', 'tickValues'])
                axis[name] = () => axis;
            axes.push(axis);
            return axis;
        },
        brush: () => {
            let scale = linear(), extent = [0, 0];
            const drawn = [];
            const handlers = {};
            const brush = sel => sel.each(function() {
                this.brushed = extent.slice();
                if (!drawn.includes(this)) drawn.push(this);
                if (this.all('.background').length) return;
                for (const cls of ['background', 'extent']) {
                    const rect = new Node('rect');
                    rect.attrs['class'] = cls;
                    this.add(rect);
                }
            });
            brush.x = function(s) {
                if (!arguments.length) return scale;
                scale = s;
                return brush;
            };
            brush.extent = function(e) {
                if (!arguments.length) return extent.slice();
                extent = Array.from(e);
                return brush;
            };
            brush.on = function(type, fn) {
                if (arguments.length < 2) return handlers[type];
                handlers[type] = fn;
                return brush;
            };
            brush.clear = () => brush.extent([0, 0]);
            brush.empty = () => extent[0] === extent[1];
            brush.event = () => undefined;
            // Moved by hand, a brush draws itself
            brush.moved = () => drawn.forEach(
                n => { n.brushed = extent.slice(); });
            brush.fire = type => handlers[type] && handlers[type].call(win);
            brushes.push(brush);
            return brush;
        }
    };
    d3.behavior = {
        zoom: () => {
            // As in d3 v3
            let x0, x1, extent = [0, Infinity];
            const view = {x: 0, y: 0, k: 1};
            const handlers = {};
            const rescale = () => {
                if (x1) x1.domain(x0.range().map(
                    x => (x - view.x) / view.k).map(x0.invert));
            };
            const zoom = () => undefined;
            zoom.x = function(z) {
                if (!arguments.length) return x1;
                x1 = z;
                x0 = z.copy();
                Object.assign(view, {x: 0, y: 0, k: 1});
                return zoom;
            };
            zoom.translate = function(t) {
                if (!arguments.length) return [view.x, view.y];
                view.x = +t[0];
                view.y = +t[1];
                rescale();
                return zoom;
            };
            zoom.scale = function(k) {
                if (!arguments.length) return view.k;
                view.k = Math.max(extent[0], Math.min(extent[1], +k));
                rescale();
                return zoom;
            };
            zoom.scaleExtent = function(e) {
                if (!arguments.length) return extent;
                extent = e;
                return zoom;
            };
            zoom.on = function(type, fn) {
                if (arguments.length < 2) return handlers[type];
                handlers[type] = fn;
                return zoom;
            };
            zoom.center = zoom.size = zoom.duration = zoom.y = () => zoom;
            zoom.event = () => undefined;
            zoom.fire = type => handlers[type] && handlers[type].call(win);
            zoom.view = view;
            zooms.push(zoom);
            return zoom;
        },
        drag: () => {
            const drag = () => undefined;
            drag.on = drag.origin = () => drag;
            return drag;
        }
    };
    d3.tip = () => {
        let html = () => '';
        const tip = () => undefined;
        tip.attr = tip.offset = tip.direction = tip.rootElement = () => tip;
        tip.style = function() { return arguments.length < 2 ? '10px' : tip; };
        tip.html = fn => {
            html = typeof fn === 'function' ? fn : () => fn;
            return tip;
        };
        tip.show = function(d) { tip.shown = html.call(this, d); };
        tip.hide = function() { tip.shown = null; };
        tip.destroy = () => tip;
        tips.push(tip);
        return tip;
    };
    let pointer = [0, 0];
    d3.mouse = () => pointer.slice();

    // ---------------------------------------------------------------- jQuery

    const resizers = {};
    const $ = what => {
        let nodes = [];
        if (isWindow(what)) nodes = [win];
        else if (what instanceof Node) nodes = [what];
        else if (/^\s*</.test(what))
            nodes = [new Node(/<\s*(\w+)/.exec(what)[1])];
        else nodes = root.all(what);
        const wrap = {
            length: nodes.length,
            width: () => nodes.length && nodes[0].attrs.id in widths ?
                widths[nodes[0].attrs.id] : 0,
            height: () => 100,
            append: child => {
                for (const n of nodes) {
                    if (child && child.nodes)
                        for (const c of child.nodes) n.add(c);
                    else n.html += child;
                }
                return wrap;
            },
            closest: () => ({
                width: () => nodes.length && nodes[0].attrs.id in widths ?
                    widths[nodes[0].attrs.id] : 0
            }),
            on: (type, fn) => {
                for (const n of nodes) {
                    if (n === win) resizers[type] = fn;
                    else n.handlers[type] = fn;
                }
                return wrap;
            },
            off: type => { delete resizers[type]; return wrap; },
            addClass: () => wrap,
            attr: () => wrap,
            html: h => { for (const n of nodes) n.html = h; return wrap; },
            text: h => { for (const n of nodes) n.text = h; return wrap; },
            modal: () => wrap,
            show: () => { shown.push(wrap); return wrap; },
            get: i => i === undefined ? nodes : nodes[i],
            each: fn => { nodes.forEach((n, i) => fn.call(n, i, n)); },
            nodes: nodes
        };
        nodes.forEach((n, i) => { wrap[i] = n; });
        return wrap;
    };
    const shown = [];
    $.each = (list, fn) => {
        if (Array.isArray(list))
            list.forEach((v, i) => fn.call(v, i, v));
        else for (const k in list) fn.call(list[k], k, list[k]);
        return list;
    };
    $.extend = Object.assign;

    // -------------------------------------------------------------- dygraphs

    const graphs = [], syncs = [];
    function Dygraph(el, data, options) {
        if (!el) throw new Error('no element for a graph');
        this.el = el;
        this.given = JSON.parse(JSON.stringify(data, nan));
        this.rawData_ = data.map(row => row.slice());
        this.options = Object.assign({}, options);
        this.first = Object.assign({}, options);
        this.sizes = [];
        this.updates = 0;
        graphs.push(this);
    }
    const bounds = list => {
        const ok = list.filter(v => typeof v === 'number' && v === v);
        return ok.length ? [Math.min(...ok), Math.max(...ok)] : [0, 1];
    };
    Dygraph.prototype = {
        xAxisRange() {
            return this.options.dateWindow ? this.options.dateWindow.slice() :
                bounds(this.given.map(r => r[0]));
        },
        yAxisRange() {
            return this.options.valueRange ? this.options.valueRange.slice() :
                bounds([].concat(...this.given.map(r => r.slice(1))));
        },
        resize(w, h) { this.sizes.push([w, h]); },
        updateOptions(o) { Object.assign(this.options, o); this.updates++; },
        destroy() { this.destroyed = true; },
        getOption(k) { return this.options[k]; }
    };
    Dygraph.synchronize = (list, opts) => {
        const sync = {graphs: list.slice(), opts: opts, attached: true,
                      detach() { this.attached = false; }};
        syncs.push(sync);
        return sync;
    };

    // ----------------------------------------------------------- the sandbox

    const documentStub = {
        getElementById: byId,
        querySelector: s => root.querySelector(s),
        querySelectorAll: s => root.all(s),
        createElement: t => new Node(t),
        body: root
    };
    const sandbox = {
        d3: supported(d3, 'd3'), $: $, jQuery: $, Dygraph: Dygraph, document: documentStub,
        console: {log: () => 0, warn: () => 0, error: () => 0, info: () => 0},
        setTimeout: fn => { fn(); return 0; },
        parseFloat: parseFloat
    };
    sandbox.window = sandbox;
    vm.createContext(sandbox);
    // A loader that has everything loaded
    const modules = request.modules;
    let loaded = request.loaded ? null : {};
    const load = name => {
        if (loaded && modules[name] && !loaded[name]) {
            loaded[name] = true;
            vm.runInContext(fs.readFileSync(modules[name], 'utf8'), sandbox,
                            {filename: modules[name], timeout: 20000});
        }
    };
    const loader = (names, fn) => {
        names.forEach(load);
        if (fn) fn.apply(sandbox, names.map(
            n => n === 'require' ? loader : sandbox[n]));
    };
    loader.config = () => loader;
    if (!request.loaded) {
        sandbox.require = loader;
        sandbox.requirejs = loader;
    }

    return {
        root, win, widths, add, d3, zooms, brushes, tips, graphs, syncs,
        resizers, sandbox, byId,
        setPointer: p => { pointer = p; },
        run: code => vm.runInContext(code, sandbox, {timeout: 20000})
    };
}

// JSON has no NaN
function nan(key, val) {
    return typeof val === 'number' && !isFinite(val) ? null : val;
}

function segments(d) {
    // 'M x y H x2' over and over
    const out = [];
    const re = /([MHLVhlvm])\s*([^MHLVhlvm]*)/g;
    let m, at = null;
    while ((m = re.exec(d))) {
        const nums = m[2].trim().split(/[\s,]+/).filter(s => s).map(Number);
        if (m[1] === 'M') at = nums;
        else if (m[1] === 'H') {
            out.push([at[0], nums[0], at[1]]);
            at = [nums[0], at[1]];
        } else if (m[1] === 'h') {
            out.push([at[0], at[0] + nums[0], at[1]]);
            at = [at[0] + nums[0], at[1]];
        } else if (m[1] === 'L') {
            out.push([at[0], nums[0], at[1], nums[1]]);
            at = nums;
        } else throw new Error('unknown path ' + d);
    }
    return out;
}

function eventState(world, id) {
    const div = world.byId(id);
    const out = {main: [], mini: null, texts: {}, lanes: [], guiders: [],
                 rects: []};
    const text = node => node.text + node.children.map(text).join('');
    const visible = node => {
        for (; node; node = node.parentNode)
            if (node.attrs.visibility === 'hidden' ||
                node.styles.visibility === 'hidden' ||
                node.styles.display === 'none')
                return false;
        return true;
    };
    const plot = node => {
        const paths = [];
        for (const p of node.all('path')) {
            if (!visible(p) || p.attrs.d === undefined) continue;
            const one = {color: p.attrs.stroke, parts: segments(p.attrs.d),
                         width: p.attrs['stroke-width']};
            if (p.handlers.mouseover) {
                p.handlers.mouseover.call(p, p.__data__);
                for (const tip of world.tips) {
                    if (tip.shown) one.tip = tip.shown;
                    tip.shown = null;
                }
            }
            paths.push(one);
        }
        return paths;
    };
    const ends = n => [+n.attrs.x1, +n.attrs.y1, +n.attrs.x2, +n.attrs.y2];
    const lanes = node => node.all('.laneText').map(
        n => [n.text, +n.attrs.y]);
    for (const svg of div.children) {
        if (svg.tagName !== 'svg') continue;
        const info = {width: svg.attrs.width, height: svg.attrs.height};
        if (svg.all('.mini').length) {
            const mini = svg.all('.mini')[0];
            out.mini = plot(mini);
            out.mini_lanes = lanes(mini);
            out.mini_lines = mini.all('line').map(ends);
            out.mini_svg = info;
            for (const g of mini.all('.brush')) out.brushed = g.brushed;
        } else if (svg.classes().includes('info')) {
            out.info_svg = info;
            out.info = svg.all('text').map(n => n.text);
        } else {
            const main = svg.all('.main').filter(
                n => !n.classes().includes('axis'))[0];
            out.main = plot(main);
            out.lanes = lanes(main);
            out.main_svg = info;
            for (const g of svg.all('.axis')) out.axis = g.axis;
            for (const g of main.all('text'))
                if (!g.classes().includes('laneText'))
                    out.guiders.push([g.text, +g.attrs.x,
                        g.parentNode.all('line').map(ends)]);
            out.lines = main.all('line').map(ends);
            for (const r of main.all('rect'))
                out.rects.push([+r.attrs.x, +r.attrs.y, +r.attrs.width,
                                +r.attrs.height]);
        }
    }
    out.html = div.html;
    return out;
}

function zoomOf(world, num) {
    return world.zooms[num];
}

function act(world, one) {
    if (one.do === 'add') {
        world.add(one.id, one.width);
    } else if (one.do === 'drop') {
        world.byId(one.id).detach();
    } else if (one.do === 'script') {
        world.run(one.text);
    } else if (one.do === 'zoom') {
        // Scrolling around or dragging
        const zoom = zoomOf(world, one.plot);
        zoom.scale(one.scale);
        const range = zoom.x().range();
        zoom.translate([one.at * (range[1] - range[0]), 0]);
        for (let i = 0; i < one.times; i++) zoom.fire('zoom');
        if (one.end) zoom.fire('zoomend');
    } else if (one.do === 'brush') {
        const brush = world.brushes[one.plot];
        brush.extent(one.extent);
        brush.moved();
        brush.fire('brush');
    } else if (one.do === 'resize') {
        for (const id in one.widths) world.widths[id] = one.widths[id];
        for (const key of Object.keys(world.win.handlers))
            if (/^resize/.test(key)) world.win.handlers[key].call(world.win);
        for (const key of Object.keys(world.resizers))
            if (/^resize/.test(key)) world.resizers[key].call(world.win);
    } else if (one.do === 'click') {
        const svgs = world.byId(one.id).children.filter(
            n => n.tagName === 'svg' && n.handlers.contextmenu);
        let stopped = false;
        world.d3.event = {ctrlKey: one.ctrl, altKey: one.alt,
                          preventDefault: () => { stopped = true; }};
        // Relative to the chart, not to the svg around it
        const chart = svgs[0].all('.main').filter(
            n => !n.classes().includes('axis'))[0];
        const move = /translate\(([-\d.e]+)[ ,]+([-\d.e]+)\)/.exec(
            chart.attrs.transform || '') || [0, 0, 0];
        world.setPointer([one.x + +move[1], one.y + +move[2]]);
        svgs[0].handlers.contextmenu.call(svgs[0], svgs[0].__data__, 0);
        return {prevented: stopped};
    } else throw new Error('unknown action ' + one.do);
    return {};
}

function graphState(world) {
    return world.graphs.map(g => ({
        id: g.el.attrs.id, options: g.options, first: g.first, given: g.given,
        raw: g.rawData_.map(r => Array.from(r, v => v === undefined ? null : v)),
        sizes: g.sizes, updates: g.updates
    }));
}

function answer(request) {
    const world = makeWorld(request);
    const out = [];
    const number = {};
    for (const one of request.actions) {
        // Event plots are numbered in the order in which they appear
        const before = world.zooms.length;
        const res = act(world, one);
        if (world.zooms.length > before && one.id)
            number[one.id] = before;
        if (request.kind === 'event') {
            res.graphs = {};
            for (const g of world.graphs) res.graphs[g.el.attrs.id] = g.given;
            res.plots = {};
            for (const id of Object.keys(number)) {
                if (!world.byId(id)) continue;
                res.plots[id] = eventState(world, id);
                const x = zoomOf(world, number[id]).x();
                res.plots[id].domain = x.domain();
                res.plots[id].range = x.range();
            }
        } else {
            res.graphs = graphState(world);
            res.syncs = world.syncs.map(s => ({
                attached: s.attached, opts: s.opts,
                graphs: s.graphs.map(g => world.graphs.indexOf(g))
            }));
        }
        // As it is now
        out.push(JSON.parse(JSON.stringify(res, nan)));
    }
    return out;
}

const lines = readline.createInterface({input: process.stdin});
lines.on('line', line => {
    let res;
    try {
        res = {ok: answer(JSON.parse(line))};
    } catch (err) {
        res = {error: String(err && err.stack || err).slice(0, 2000)};
    }
    process.stdout.write(JSON.stringify(res, nan) + '\n');
});
