// The closed world a UI execution runs in: one jsdom document per process, a virtual clock that owns
// every timer / animation frame / idle callback, observer stubs the harness can fire, and a listener
// ledger. Promise jobs run in the engine's FIFO order; everything else happens only when the harness
// says so. reset() returns the world to its initial state between executions.
import fs from 'node:fs';
import { uiRequire } from './paths.mjs';

const realSetImmediate = setImmediate;
const realDate = Date;
const RealPromise = Promise;

let dom;
let installed = false;

// ---------------------------------------------------------------- virtual time
const clock = { now: 0, seq: 0, nextId: 1, timers: new Map() };
const EPOCH = 1_700_000_000_000;

function addTimer(kind, fn, delay, args, repeat) {
    const id = clock.nextId++;
    const d = Number.isFinite(+delay) ? Math.max(0, +delay) : 0;
    clock.timers.set(id, { id, kind, fn, args, due: clock.now + d, repeat: repeat ? Math.max(1, d) : 0 });
    return id;
}

function takeDue(limit) {
    let best = null;
    for (const t of clock.timers.values()) {
        if (t.due <= limit && (!best || t.due < best.due || (t.due === best.due && t.id < best.id))) {
            best = t;
        }
    }
    return best;
}

function fire(t) {
    clock.now = Math.max(clock.now, t.due);
    if (t.repeat) {
        t.due = clock.now + t.repeat;
    } else {
        clock.timers.delete(t.id);
    }
    try {
        if (typeof t.fn === 'function') {
            t.fn(...(t.kind === 'raf' ? [clock.now] : t.args));
        }
    } catch (e) {
        env.errors.push(String((e && e.stack) || e));
    }
}

class VirtualDate extends realDate {
    constructor(...args) {
        if (args.length === 0) {
            super(VirtualDate.now());
        } else {
            super(...args);
        }
    }
    static now() {
        return EPOCH + clock.now + clock.seq;
    }
}

// ---------------------------------------------------------------- observers
class FakeObserver {
    constructor(cb) {
        this.cb = cb;
        this.targets = new Set();
        env.observers[this.kind].add(this);
    }
    observe(el) {
        this.targets.add(el);
    }
    unobserve(el) {
        this.targets.delete(el);
    }
    disconnect() {
        this.targets.clear();
    }
    takeRecords() {
        return [];
    }
}
class FakeResizeObserver extends FakeObserver {
    get kind() {
        return 'resize';
    }
}
class FakeIntersectionObserver extends FakeObserver {
    constructor(cb, options) {
        super(cb);
        this.options = options || {};
    }
    get kind() {
        return 'intersection';
    }
}

// ---------------------------------------------------------------- listener ledger
const ledger = new Set(); // {target, type, listener, capture}

function hookListeners(target, label) {
    const add = target.addEventListener.bind(target);
    const remove = target.removeEventListener.bind(target);
    const cap = (o) => (typeof o === 'object' && o !== null ? !!o.capture : !!o);
    target.addEventListener = (type, listener, options) => {
        add(type, listener, options);
        if (!listener) {
            return;
        }
        for (const e of ledger) {
            if (e.label === label && e.type === type && e.listener === listener && e.capture === cap(options)) {
                return;
            }
        }
        const rec = { label, type, listener, capture: cap(options), remove: () => remove(type, listener, options) };
        ledger.add(rec);
        const signal = typeof options === 'object' && options && options.signal;
        if (signal) {
            signal.addEventListener('abort', () => ledger.delete(rec));
        }
        if (typeof options === 'object' && options && options.once) {
            add(type, () => ledger.delete(rec), { once: true });
        }
    };
    target.removeEventListener = (type, listener, options) => {
        remove(type, listener, options);
        for (const e of ledger) {
            if (e.label === label && e.type === type && e.listener === listener && e.capture === cap(options)) {
                ledger.delete(e);
            }
        }
    };
}

function install() {
    const { JSDOM } = uiRequire('jsdom');
    dom = new JSDOM('<!DOCTYPE html><html><head></head><body></body></html>', {
        url: 'http://localhost/',
        pretendToBeVisual: false,
    });
    const w = dom.window;
    const g = globalThis;
    const keep = new Set([
        'globalThis', 'global', 'process', 'Buffer', 'console', 'Promise', 'queueMicrotask', 'structuredClone',
        'setImmediate', 'clearImmediate', 'performance', 'Object', 'Array', 'Function', 'Error', 'Symbol', 'Map',
        'Set', 'WeakMap', 'WeakSet', 'Date', 'Math', 'JSON', 'RegExp', 'String', 'Number', 'Boolean', 'BigInt',
        'Proxy', 'Reflect', 'Intl', 'URL', 'URLSearchParams', 'TextEncoder', 'TextDecoder', 'WebAssembly', 'eval',
        'undefined', 'NaN', 'Infinity', 'window', 'self', 'top', 'parent', 'frames', 'localStorage', 'sessionStorage',
        'atob', 'btoa', 'fetch', 'Headers', 'Request', 'Response', 'crypto', 'Crypto',
    ]);
    for (const key of Object.getOwnPropertyNames(w)) {
        if (keep.has(key) || /^_/.test(key)) {
            continue;
        }
        const own = Object.getOwnPropertyDescriptor(g, key);
        if (own && own.configurable === false) {
            continue;
        }
        if (own && /^(Int|Uint|Float|Big|ArrayBuffer|DataView|SharedArrayBuffer|Atomics|Aggregate|Eval|Range|Reference|Syntax|Type|URI|Weak|Finalization|parse|is[NF]|encode|decode|escape|unescape|Iterator)/.test(key)) {
            continue;
        }
        let value;
        try {
            value = w[key];
        } catch {
            continue;
        }
        if (typeof value === 'function' && !/^[A-Z]/.test(key)) {
            value = value.bind(w);
        }
        Object.defineProperty(g, key, { value, writable: true, configurable: true, enumerable: true });
    }
    for (const key of ['addEventListener', 'removeEventListener', 'dispatchEvent']) {
        Object.defineProperty(g, key, { value: w[key].bind(w), writable: true, configurable: true });
    }
    g.window = g;
    g.self = g;
    Object.defineProperty(g, 'top', { value: g, configurable: true, writable: true });
    g.document = w.document;

    const timers = {
        setTimeout: (fn, d, ...a) => addTimer('timeout', fn, d, a, false),
        clearTimeout: (id) => void clock.timers.delete(id),
        setInterval: (fn, d, ...a) => addTimer('interval', fn, d, a, true),
        clearInterval: (id) => void clock.timers.delete(id),
        requestAnimationFrame: (fn) => addTimer('raf', fn, 16, [], false),
        cancelAnimationFrame: (id) => void clock.timers.delete(id),
        requestIdleCallback: (fn) => addTimer('idle', fn, 1, [{ didTimeout: false, timeRemaining: () => 1 }], false),
        cancelIdleCallback: (id) => void clock.timers.delete(id),
    };
    for (const [k, v] of Object.entries(timers)) {
        Object.defineProperty(g, k, { value: v, writable: true, configurable: true });
        w[k] = v;
    }
    g.Date = VirtualDate;
    Object.defineProperty(g, 'performance', {
        value: { now: () => clock.now + clock.seq, timeOrigin: EPOCH, mark() {}, measure() {}, getEntriesByName: () => [] },
        configurable: true,
        writable: true,
    });

    g.ResizeObserver = FakeResizeObserver;
    g.IntersectionObserver = FakeIntersectionObserver;
    g.matchMedia = w.matchMedia = (query) => ({
        matches: !!env.media[query],
        media: query,
        onchange: null,
        addListener() {},
        removeListener() {},
        addEventListener() {},
        removeEventListener() {},
        dispatchEvent: () => true,
    });
    const storage = new Map();
    env.storage = storage;
    const localStorage = {
        getItem: (k) => (storage.has(String(k)) ? storage.get(String(k)) : null),
        setItem: (k, v) => void storage.set(String(k), String(v)),
        removeItem: (k) => void storage.delete(String(k)),
        clear: () => storage.clear(),
        key: (i) => [...storage.keys()][i] ?? null,
        get length() {
            return storage.size;
        },
    };
    Object.defineProperty(g, 'localStorage', { value: localStorage, configurable: true, writable: true });
    Object.defineProperty(g, 'navigator', {
        value: {
            userAgent: 'Mozilla/5.0 (X11; Linux x86_64) jsdom',
            platform: 'Linux x86_64',
            maxTouchPoints: 0,
            language: 'en-US',
            clipboard: { writeText: (t) => env.clipboard(t) },
        },
        configurable: true,
        writable: true,
    });
    // computed style from inline style only: no cascade is needed by any checked property
    const fastStyle = (el) =>
        new Proxy(el.style, {
            get(t, k) {
                if (k === 'getPropertyValue') {
                    return (p) => t.getPropertyValue(p);
                }
                const v = t[k];
                return typeof v === 'function' ? v.bind(t) : (v ?? '');
            },
        });
    g.getComputedStyle = w.getComputedStyle = fastStyle;
    w.Element.prototype.scrollIntoView = function (opts) {
        env.scrollIntoView.push({ el: this, opts });
    };
    w.Element.prototype.scrollTo = function () {};
    w.scrollTo = g.scrollTo = () => {};
    w.open = g.open = (...args) => {
        env.windowOpen.push(args);
        return null;
    };
    hookListeners(w.document, 'document');
    const wAdd = { addEventListener: g.addEventListener, removeEventListener: g.removeEventListener };
    hookListeners(wAdd, 'window');
    g.addEventListener = wAdd.addEventListener;
    g.removeEventListener = wAdd.removeEventListener;
    for (const kind of ['log', 'warn', 'error', 'info', 'debug']) {
        console[kind] = (...args) => {
            env.console.push([kind, args.map(String).join(' ')]);
            if (env.verbose) {
                process.stderr.write(`[${kind}] ${args.map(String).join(' ')}\n`);
            }
        };
    }
    process.on('unhandledRejection', (e) => env.errors.push('unhandledRejection ' + String((e && e.stack) || e)));
    installed = true;
}

let factory = null;
let vueModule = null;

export const env = {
    clock,
    ledger,
    errors: [],
    console: [],
    media: {},
    observers: { resize: new Set(), intersection: new Set() },
    scrollIntoView: [],
    windowOpen: [],
    clipboard: () => RealPromise.resolve(),
    apps: [],
    verbose: !!process.env.VERIF_VERBOSE,

    load(bundleFile) {
        if (!installed) {
            install();
        }
        process.env.NODE_ENV = 'production';
        vueModule = uiRequire('vue');
        this.vue = vueModule;
        const code = fs.readFileSync(bundleFile, 'utf8');
        factory = new Function('require', 'module', 'exports', code);
    },

    // a fresh instance of the library
    instance() {
        const module = { exports: {} };
        factory((id) => (id === 'vue' ? vueModule : uiRequire(id)), module, module.exports);
        return module.exports;
    },

    // drains every promise job (the microtask queue is empty when a macrotask starts)
    flush() {
        return new RealPromise((resolve) => realSetImmediate(resolve));
    },

    // a new user-level event: distinct event timestamp, then run to quiescence of promise jobs
    async act(fn) {
        clock.seq++;
        let result;
        try {
            result = fn();
        } catch (e) {
            env.errors.push(String((e && e.stack) || e));
        }
        await env.flush();
        return result;
    },

    nextDue() {
        const t = takeDue(Infinity);
        return t ? t.due : null;
    },

    // fire exactly the earliest pending timer
    async tick() {
        const t = takeDue(Infinity);
        if (!t) {
            return false;
        }
        clock.seq++;
        fire(t);
        await env.flush();
        return true;
    },

    // fire everything due within ms
    async advance(ms) {
        const limit = clock.now + ms;
        let n = 0;
        for (;;) {
            const t = takeDue(limit);
            if (!t) {
                break;
            }
            if (++n > 2000) {
                throw new Error('advance: runaway timers');
            }
            fire(t);
            await env.flush();
        }
        clock.now = limit;
        clock.seq++;
        await env.flush();
    },

    pending(kind) {
        return [...clock.timers.values()].filter((t) => !kind || t.kind === kind);
    },

    // mount a root component; returns {app, el, unmount}
    mount(root, { plugins = [], components = {}, provide = {}, props = null, target = document.body } = {}) {
        const el = document.createElement('div');
        el.className = 'verif-root';
        target.appendChild(el);
        const app = vueModule.createApp(root, props);
        app.config.errorHandler = (e) => env.errors.push(String((e && e.stack) || e));
        for (const [k, v] of Object.entries(provide)) {
            app.provide(k, v);
        }
        for (const [k, v] of Object.entries(components)) {
            app.component(k, v);
        }
        for (const p of plugins) {
            app.use(p);
        }
        const vm = app.mount(el);
        const handle = {
            app,
            el,
            vm,
            mounted: true,
            unmount() {
                if (handle.mounted) {
                    handle.mounted = false;
                    app.unmount();
                    el.remove();
                }
            },
        };
        env.apps.push(handle);
        return handle;
    },

    listeners(label, type) {
        return [...ledger].filter((e) => (!label || e.label === label) && (!type || e.type === type));
    },

    async reset() {
        for (const h of env.apps) {
            try {
                h.unmount();
            } catch {
                /* the execution is over */
            }
        }
        env.apps.length = 0;
        await env.flush();
        clock.timers.clear();
        await env.flush();
        for (const e of [...ledger]) {
            e.remove();
        }
        ledger.clear();
        if (document.activeElement && document.activeElement !== document.body) {
            document.activeElement.blur?.();
        }
        document.body.innerHTML = '';
        for (const el of [document.body, document.documentElement]) {
            for (const a of [...el.attributes]) {
                el.removeAttribute(a.name);
            }
        }
        env.storage.clear();
        env.media = {};
        env.clipboard = () => RealPromise.resolve();
        for (const s of Object.values(env.observers)) {
            s.clear();
        }
        env.errors.length = 0;
        env.console.length = 0;
        env.scrollIntoView.length = 0;
        env.windowOpen.length = 0;
        clock.now = 0;
        clock.seq = 0;
        clock.nextId = 1;
        await env.flush();
    },
};

// a promise the harness settles
export function deferred() {
    const d = {};
    d.promise = new RealPromise((res, rej) => {
        d.resolve = res;
        d.reject = rej;
    });
    d.settled = false;
    return d;
}
