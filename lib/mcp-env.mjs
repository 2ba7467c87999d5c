// The closed world of the MCP server: the real server program, its transport, its clock, its environment
// variables and the GitHub it reads from all belong to the harness.
import fs from 'node:fs';
import { mcpRequire } from './paths.mjs';

const immediate = setImmediate;
const tick = () => new Promise((r) => immediate(r));

const RAW = 'https://raw.githubusercontent.com/vlossom-ui/vlossom/';
const API = 'https://api.github.com/repos/vlossom-ui/vlossom/';

const listings = new WeakMap();
function listing(files, dir) {
    let byDir = listings.get(files);
    if (!byDir) {
        byDir = new Map();
        for (const p of Object.keys(files)) {
            const parts = p.split('/');
            for (let i = 1; i <= parts.length; i++) {
                const parent = parts.slice(0, i - 1).join('/');
                const self = parts.slice(0, i).join('/');
                if (!byDir.has(parent)) {
                    byDir.set(parent, new Map());
                }
                byDir.get(parent).set(parts[i - 1], { name: parts[i - 1], path: self, type: i === parts.length ? 'file' : 'dir' });
            }
        }
        listings.set(files, byDir);
    }
    const found = byDir.get(dir);
    return found ? [...found.values()] : null;
}

// repo: { refs: { main: { path: text } , ... }, releases: [...] }
export class GitHub {
    constructor(repo, { manual = false, order } = {}) {
        this.repo = repo;
        this.manual = manual;
        this.order = order; // reorders directory listings
        this.log = [];
        this.pending = [];
        this.fault = null; // (key) => undefined | status | 'network'
        this.count = new Map();
    }

    // a short name for what is asked: "main:packages/…", "main:packages/…/" or "releases"
    key(url) {
        if (url.startsWith(RAW)) {
            const rest = url.slice(RAW.length);
            const cut = rest.indexOf('/');
            return `${decodeURIComponent(rest.slice(0, cut))}:${decodeURIComponent(rest.slice(cut + 1))}`;
        }
        if (url.startsWith(API)) {
            const u = new URL(url);
            const rest = u.pathname.slice('/repos/vlossom-ui/vlossom/'.length);
            if (rest === 'releases') {
                return 'releases';
            }
            if (rest.startsWith('contents/')) {
                return `${u.searchParams.get('ref') ?? 'main'}:${decodeURIComponent(rest.slice('contents/'.length)).replace(/\/+$/, '')}/`;
            }
        }
        return 'elsewhere ' + url;
    }

    body(key) {
        if (key === 'releases') {
            return JSON.stringify(this.repo.releases ?? []);
        }
        const cut = key.indexOf(':');
        const files = this.repo.refs[key.slice(0, cut)];
        const p = key.slice(cut + 1);
        if (!files) {
            return null;
        }
        if (p.endsWith('/')) {
            let list = listing(files, p.slice(0, -1));
            if (list && this.order) {
                list = this.order(list);
            }
            return list && JSON.stringify(list);
        }
        return files[p] ?? null;
    }

    respond(key, fault) {
        if (fault === 'network') {
            throw new TypeError('fetch failed');
        }
        const text = fault ? null : this.body(key);
        const status = fault || (text === null ? 404 : 200);
        const payload = status === 200 ? text : JSON.stringify({ message: 'no' });
        return {
            ok: status === 200,
            status,
            statusText: String(status),
            headers: new Headers(),
            text: async () => payload,
            json: async () => JSON.parse(payload),
        };
    }

    fetch(input, init) {
        const url = String(input?.url ?? input);
        const key = this.key(url);
        this.log.push(key);
        this.lastInit = init;
        if (!this.manual) {
            const fault = this.fault?.(key);
            return (async () => this.respond(key, fault))();
        }
        return new Promise((resolve, reject) => {
            this.pending.push({ key, resolve, reject });
        });
    }

    // settles the k-th oldest outstanding request of this key
    settle(key, fault) {
        const i = this.pending.findIndex((p) => p.key === key);
        const [p] = this.pending.splice(i, 1);
        try {
            p.resolve(this.respond(key, fault));
        } catch (e) {
            p.reject(e);
        }
    }

    waiting() {
        return [...new Set(this.pending.map((p) => p.key))];
    }
}

class Clock {
    constructor(now) {
        this.now = now;
        const clock = this;
        const Real = Date;
        this.Date = class VirtualDate extends Real {
            constructor(...a) {
                super(...(a.length ? a : [clock.now]));
            }
            static now() {
                return clock.now;
            }
        };
    }
}

class Server {
    constructor(factory, options) {
        this.github = options.github;
        this.clock = new Clock(options.now ?? 1_700_000_000_000);
        this.inbox = new Map();
        this.nextId = 1;
        const server = this;
        this.transport = {
            async start() {},
            async send(message) {
                if (message.id !== undefined && (message.result !== undefined || message.error !== undefined)) {
                    server.inbox.set(message.id, message);
                }
            },
            async close() {
                this.onclose?.();
            },
        };
        const require = (id) => {
            if (id.endsWith('/server/stdio.js')) {
                return {
                    StdioServerTransport: class {
                        constructor() {
                            return server.transport;
                        }
                    },
                };
            }
            return mcpRequire(id);
        };
        const proc = new Proxy(process, {
            get(t, k) {
                if (k === 'env') {
                    return options.env ?? {};
                }
                if (k === 'exit') {
                    return (code) => {
                        server.exited = code;
                    };
                }
                if (k === 'stderr' || k === 'stdout') {
                    return { write: (s) => ((server.output ??= []).push(String(s)), true) };
                }
                const v = t[k];
                return typeof v === 'function' ? v.bind(t) : v;
            },
        });
        const fetch = (...a) => this.github.fetch(...a);
        globalThis.fetch = fetch;
        const module = { exports: {} };
        factory(module, module.exports, require, proc, fetch, this.clock.Date, { now: () => this.clock.now - 1_700_000_000_000 });
    }

    post(message) {
        this.transport.onmessage?.({ jsonrpc: '2.0', ...message });
    }

    async connect() {
        await tick();
        this.post({ id: 0, method: 'initialize', params: { protocolVersion: '2025-03-26', capabilities: {}, clientInfo: { name: 'harness', version: '1' } } });
        await tick();
        this.hello = this.inbox.get(0)?.result;
        if (!this.hello) {
            throw new Error('the server does not start: ' + (this.output ?? []).join(''));
        }
        this.post({ method: 'notifications/initialized' });
        await tick();
    }

    // sends a request; returns its number
    ask(method, params) {
        const id = this.nextId++;
        this.post({ id, method, params });
        return id;
    }

    tool(name, args) {
        return this.ask('tools/call', { name, arguments: args });
    }

    answer(id) {
        return this.inbox.get(id);
    }

    async settle() {
        await tick();
        await tick();
    }

    // request and answer with an automatic GitHub
    async call(name, args) {
        const id = this.tool(name, args);
        for (let i = 0; i < 50 && !this.inbox.has(id); i++) {
            await tick();
        }
        return unwrap(this.inbox.get(id));
    }

    async request(method, params) {
        const id = this.ask(method, params);
        for (let i = 0; i < 50 && !this.inbox.has(id); i++) {
            await tick();
        }
        return this.inbox.get(id);
    }
}

export function unwrap(message) {
    if (!message) {
        return { missing: true };
    }
    if (message.error) {
        return { rpcError: message.error.message };
    }
    const r = message.result;
    if (r.isError) {
        return { toolError: r.content?.[0]?.text };
    }
    return { data: r.structuredContent, meta: r._meta, text: r.content?.[0]?.text };
}

export const env = {
    async load(file) {
        const text = fs.readFileSync(file, 'utf8').replace(/^#!.*/, '');
        this.factory = new Function('module', 'exports', 'require', 'process', 'fetch', 'Date', 'performance', text);
    },
    async reset() {
        this.servers = [];
    },
    async server(options) {
        const s = new Server(this.factory, options);
        await s.connect();
        return s;
    },
};
