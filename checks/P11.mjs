// Toasts: where they appear, how long they live, and what takes them away.
import { all, click, json, text } from '../lib/kit.mjs';

const KINDS = {
    plain: { call: 'show', options: {} },
    short: { call: 'show', options: { placement: 'bottom', align: 'end', timeout: 2000 } },
    brief: { call: 'show', options: { timeout: 1000 } },
    middle: { call: 'show', options: { placement: 'middle', align: 'start', timeout: 3000 } },
    stay: { call: 'show', options: { autoClose: false } },
    boxed: { call: 'show', options: { container: '#box', timeout: 2000 } },
    boxStay: { call: 'show', options: { container: '#box', autoClose: false, align: 'end' } },
    info: { call: 'info', options: { timeout: 1000 }, color: 'cyan' },
    success: { call: 'success', options: { timeout: 1000 }, color: 'green' },
    warning: { call: 'warning', options: { timeout: 2000 }, color: 'yellow', says: 'warn' },
    error: { call: 'error', options: { timeout: 2000 }, color: 'red', says: 'error' },
    purple: { call: 'error', options: { timeout: 2000, colorScheme: 'purple', container: '#box' }, color: 'purple', says: 'error' },
    ownInfo: { call: 'info', options: { timeout: 1000, colorScheme: 'red' }, color: 'red' },
    ownSuccess: { call: 'success', options: { timeout: 1000, colorScheme: 'blue', placement: 'bottom' }, color: 'blue' },
    ownWarning: { call: 'warning', options: { timeout: 1000, colorScheme: 'green', align: 'end' }, color: 'green', says: 'warn' },
    ownShow: { call: 'show', options: { timeout: 1000, colorScheme: 'pink' }, color: 'pink' },
    logged: { call: 'show', options: { timeout: 1000 }, logger: true },
};

const SCENARIOS = [
    { name: 'two lifetimes in one place', kinds: ['plain', 'brief'], max: 3, depth: 5, deep: 6 },
    { name: 'different places', kinds: ['short', 'middle'], max: 2, depth: 5, deep: 7 },
    { name: 'toasts that stay', kinds: ['stay', 'short'], max: 2, depth: 5, deep: 7 },
    { name: 'two containers', kinds: ['boxed', 'brief'], max: 2, depth: 5, deep: 6 },
    { name: 'container that comes and goes', kinds: ['boxed', 'boxStay'], max: 2, box: 'moving', depth: 6, deep: 7 },
    { name: 'toasts and modals in one container', kinds: ['boxed'], max: 2, modals: '#box', depth: 5, deep: 6 },
    { name: 'toasts and modals in the body', kinds: ['short'], max: 2, modals: 'body', depth: 5, deep: 6 },
    { name: 'severities', kinds: ['info', 'success', 'warning', 'error', 'purple'], max: 2, depth: 3, deep: 5, calm: true },
    { name: 'severities with colours of their own', kinds: ['ownInfo', 'ownSuccess', 'ownWarning', 'ownShow', 'purple'], max: 2, depth: 2, deep: 4, calm: true },
    { name: 'logger', kinds: ['logged', 'stay'], max: 2, depth: 4, deep: 5, calm: true },
];

const isLeaving = (el) => el.classList.contains('toasts-leave-active') || el.classList.contains('modal-leave-active');
const where = (t) => t.options.container || 'body';

export default {
    id: 'P11',
    world: 'ui',
    method: 'every sequence, up to the depth, of showing toasts of several lifetimes and places, passing time (virtual clock, one-second steps), pointer entering and leaving, the close button, programmatic removal and replacing the container; the toasts on the page are compared with a reference after every step',
    assumptions: ['time passes in whole seconds and the lifetimes used are whole seconds', 'the container is only replaced while no toast is shown in it'],

    scenarios(tier) {
        return SCENARIOS.map((s) => ({ ...s, depth: tier === 'thorough' ? s.deep : s.depth }));
    },

    async start(env, sc) {
        const { h } = env.vue;
        const lib = env.instance();
        const sys = { env, sc, lib, live: [], modals: [], n: 0, said: [], logged: [], complaint: null };
        sys.addBox = () => {
            const box = document.createElement('div');
            box.id = 'box';
            document.body.appendChild(box);
        };
        sc.box === 'moving' || sys.addBox();
        sys.app = env.mount({ render: () => h('div') }, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
        await env.flush();
        sys.$vs = lib.useVlossom();
        sys.el = (t) => all(document, '.vs-toast').find((e) => !isLeaving(e) && text(e) === t.label) || null;
        return sys;
    },

    enabled(sys) {
        const { sc } = sys;
        const out = [];
        sys.n < sc.max && sc.kinds.forEach((k) => out.push('show:' + k));
        sys.live.length && out.push('wait', 'clear:body');
        sys.live.some((t) => where(t) === '#box') && out.push('clear:#box');
        sys.live.forEach((t) => {
            out.push('x:' + t.label);
            if (!sc.calm) {
                out.push((t.hovered ? 'leave:' : 'enter:') + t.label, 'remove:' + t.label);
            }
        });
        if (sc.modals) {
            out.push(sys.modals.length ? 'closeModal' : 'openModal');
        }
        if (sc.box === 'moving' && !sys.live.length) {
            out.push(document.querySelector('#box') ? 'dropBox' : 'makeBox');
        }
        return out;
    },

    async step(sys, action) {
        const { env, $vs, lib } = sys;
        const [kind, arg] = action.split(':');
        const t = sys.live.find((x) => x.label === arg);
        const gone = (x) => (sys.live = sys.live.filter((o) => o !== x));
        sys.said = [];
        if (kind === 'show') {
            const spec = KINDS[arg];
            const x = { ...spec, label: arg + ++sys.n, until: spec.options.autoClose === false ? Infinity : sys.env.clock.now + (spec.options.timeout ?? 5000), hovered: false };
            const already = new Set(lib.useToastContainerStore().get(where(x)).map((i) => i.id));
            const from = env.console.length;
            await env.act(() => $vs.toast[spec.call](x.label, { ...spec.options, ...(spec.logger ? { logger: (m) => void sys.logged.push(m) } : {}) }));
            const said = env.console.slice(from).filter(([, m]) => m === x.label).map(([k]) => k);
            if (json(said) !== json(spec.says ? [spec.says] : [])) {
                sys.complaint = `${spec.call} wrote ${json(said)} to the console, expected ${json(spec.says ? [spec.says] : [])}`;
            }
            if (spec.logger && json(sys.logged.filter((m) => m === x.label)) !== json([x.label])) {
                sys.complaint = `the logger received ${json(sys.logged)}`;
            }
            if (document.querySelector(where(x))) {
                x.id = lib.useToastContainerStore().get(where(x)).map((i) => i.id).find((i) => !already.has(i));
                sys.live.push(x);
            }
        } else if (kind === 'wait') {
            await env.advance(1000);
            sys.live.filter((x) => x.until <= env.clock.now && !x.hovered).forEach(gone);
        } else if (kind === 'enter' || kind === 'leave') {
            await env.act(() => sys.el(t).dispatchEvent(new MouseEvent('mouse' + kind)));
            t.hovered = kind === 'enter';
            kind === 'leave' && t.until <= env.clock.now && gone(t);
        } else if (kind === 'x') {
            await env.act(() => click(sys.el(t).querySelector('button')));
            gone(t);
        } else if (kind === 'remove') {
            await env.act(() => $vs.toast.remove(where(t), t.id));
            gone(t);
        } else if (kind === 'clear') {
            await env.act(() => (arg === 'body' ? $vs.toast.clear() : $vs.toast.clear(arg)));
            sys.live.filter((x) => where(x) === arg).forEach(gone);
        } else if (kind === 'openModal') {
            await env.act(() => $vs.modal.open('modal', { container: sys.sc.modals }));
            sys.modals.push('modal');
        } else if (kind === 'closeModal') {
            await env.act(() => void $vs.modal.close(sys.sc.modals));
            sys.modals.pop();
        } else if (kind === 'makeBox') {
            sys.addBox();
        } else if (kind === 'dropBox') {
            document.querySelector('#box').remove();
        }
    },

    verdict(sys) {
        if (sys.complaint) {
            return sys.complaint;
        }
        if (sys.env.errors.length) {
            return 'an error was thrown: ' + sys.env.errors[0];
        }
        for (const place of ['body', '#box']) {
            const root = document.querySelector(place);
            const shown = {};
            if (root) {
                for (const view of all(root, ':scope > .vs-toast-view')) {
                    for (const group of all(view, '.vs-toast-container')) {
                        const at = [...group.classList].filter((c) => c !== 'vs-toast-container').map((c) => c.replace('vs-toast-', '')).join('-');
                        const names = all(group, '.vs-toast').filter((e) => !isLeaving(e)).map(text);
                        names.length && (shown[at] = names);
                    }
                }
            }
            const want = {};
            sys.live.filter((t) => where(t) === place).forEach((t) => {
                const at = `${t.options.placement || 'top'}-${t.options.align || 'center'}`;
                (want[at] ||= []).push(t.label);
            });
            const order = (o) => json(Object.entries(o).sort());
            if (order(shown) !== order(want)) {
                return `${place} shows the toasts ${json(shown)}, expected ${json(want)}`;
            }
            const modals = root ? all(root, ':scope > .vs-modal-view .vs-modal-node').filter((e) => !isLeaving(e)).length : 0;
            if (sys.sc.modals === place && modals !== sys.modals.length) {
                return `${place} shows ${modals} modals, expected ${sys.modals.length}`;
            }
        }
        for (const t of sys.live) {
            if (t.color && ![...sys.el(t).classList].some((c) => c.endsWith('-' + t.color))) {
                return `${t.label} does not carry the ${t.color} colour scheme: ${sys.el(t).className}`;
            }
        }
        return null;
    },

    async finish(sys) {
        // every toast that is not held eventually goes, and only those
        await sys.env.advance(10000);
        sys.live = sys.live.filter((t) => t.hovered || t.until === Infinity);
        return this.verdict(sys);
    },

    state(sys) {
        return json([sys.live.map((t) => [t.label, t.until - sys.env.clock.now, t.hovered]), sys.modals.length, !!document.querySelector('#box')]);
    },
};
