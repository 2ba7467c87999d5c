// The overlay stack: modals in any container, inline modals and drawers, against a reference stack.
import { all, click, json, key, text } from '../lib/kit.mjs';
import { deferred } from '../lib/ui-env.mjs';

// what can be opened; guard: asks a close guard, esc/dim: whether Escape / a click beside it closes
const KINDS = {
    plain: { where: 'body', esc: true, dim: true, options: { dimmed: true } },
    boxed: { where: '#box', esc: true, dim: true, options: { dimmed: true, container: '#box' } },
    guarded: { where: 'body', esc: true, dim: true, guard: true, yes: true, options: { dimmed: true } },
    sticky: { deaf: true, where: 'body', esc: false, dim: false, options: { dimmed: true, escClose: false, dimClose: false } },
    guardbox: { where: '#box', esc: true, dim: true, guard: true, yes: undefined, options: { dimmed: true, container: '#box' } },
};

const SCENARIOS = [
    { name: 'plain and boxed modals', kinds: ['plain', 'boxed'], max: 3, depth: 4, deep: 5 },
    { name: 'guarded and plain modals', kinds: ['guarded', 'plain'], max: 2, depth: 4, deep: 5, split: 2 },
    { name: 'guarded modals in two containers', kinds: ['guarded', 'guardbox'], max: 2, depth: 4, deep: 5, split: 2 },
    { name: 'sticky and boxed modals', kinds: ['sticky', 'boxed'], max: 3, depth: 4, deep: 5 },
    { name: 'container that is replaced', kinds: ['boxed', 'plain'], max: 2, replace: true, depth: 4, deep: 6 },
    { name: 'drawer over and under modals', kinds: ['plain'], max: 2, inline: 'drawer', depth: 4, deep: 6 },
    { name: 'inline modal over and under modals', kinds: ['plain'], max: 2, inline: 'modal', depth: 4, deep: 6 },
    { name: 'guarded inline modal', kinds: ['boxed'], max: 1, inline: 'guardmodal', depth: 4, deep: 6 },
    { name: 'inline modal open from the start', kinds: ['plain'], max: 1, inline: 'modal', initially: true, depth: 4, deep: 5 },
    { name: 'drawer open from the start', kinds: ['plain'], max: 1, inline: 'drawer', initially: true, depth: 4, deep: 5 },
];

const isLeaving = (el) => el.classList.contains('modal-leave-active');

function handlers(sys, o) {
    const note = (what) => () => void sys.heard.push(o.id + ' ' + what);
    const ping = (...x) => {
        sys.heard.push(o.id + ' ping ' + x.join());
        return o.id + ' answers';
    };
    if (o.deaf) {
        return { ping, 'key-Escape': note('key Escape'), open: note('open'), close: note('close') };
    }
    return { ping, 'key-KeyA': note('key A'), 'key-Escape': note('key Escape'), open: note('open'), close: note('close') };
}

// a key press and emitted events change nothing, so every reached state is probed with all of them
async function probe(sys) {
    const { env, $vs } = sys;
    await env.act(() => key(document.body, 'KeyA', { key: 'a' }));
    const answered = async (what, o, fn) => {
        let answer;
        await env.act(() => void Promise.resolve(fn()).then((x) => (answer = x)));
        if (answer !== (o ? o.id + ' answers' : undefined)) {
            sys.complaint = `${what} answered ${json(answer)} while ${o ? o.id + ' handles it' : 'nothing handles it'}`;
        }
    };
    const t = top(sys);
    await answered('an emitted event', t, () => $vs.modal.emit('ping', 7, 'x'));
    t && !t.deaf && sys.expected.push(t.id + ' key A');
    t && sys.expected.push(t.id + ' ping 7,x');
    for (const o of sys.everOpened) {
        const open = sys.stack.includes(o);
        await answered('an event for ' + o.id, open ? o : null, () => $vs.modal.emitWithId(o.id, 'ping', 8, 'y'));
        open && sys.expected.push(o.id + ' ping 8,y');
    }
}

const top = (sys) => sys.stack[sys.stack.length - 1] || null;

export default {
    id: 'P09',
    world: 'ui',
    method: 'every sequence, up to the depth, of opening, closing, clearing, key presses, clicks beside the overlay, emitted events, v-model writes, unmounting and guard decisions on real overlays, compared after every step with a reference stack',
    assumptions: [
        'a close request whose modal was closed by another request while its guard was deciding may report either outcome',
        'an inline modal is not reopened while a close request for its previous opening is still being decided',
        'whether the close handler of an overlay runs when its owner is unmounted is left open (at most once)',
    ],

    scenarios(tier) {
        return SCENARIOS.map((s) => ({ ...s, depth: tier === 'thorough' ? s.deep : s.depth }));
    },

    async start(env, sc) {
        const { h, reactive } = env.vue;
        const lib = env.instance();
        const box = document.createElement('div');
        box.id = 'box';
        document.body.appendChild(box);
        const sys = { env, sc, lib, stack: [], everOpened: [], heard: [], expected: [], guards: [], calls: [], complaint: null, n: 0 };
        const state = (sys.state0 = reactive({ shown: !!sc.initially, mounted: true }));
        const inline = sc.inline;
        const own = (sys.own = inline && { id: 'inline', label: 'inline', where: 'body', inline: true, esc: true, dim: true, guard: inline === 'guardmodal', yes: undefined });
        const root = {
            render: () =>
                h('div', [
                    inline && state.mounted
                        ? h(
                              inline === 'drawer' ? lib.VsDrawer : lib.VsModal,
                              {
                                  id: 'inline',
                                  dimmed: true,
                                  dimClose: true,
                                  escClose: true,
                                  callbacks: handlers(sys, own),
                                  beforeClose: own.guard ? () => sys.ask(own) : undefined,
                                  modelValue: state.shown,
                                  'onUpdate:modelValue': (v) => (state.shown = v),
                              },
                              { default: () => 'inline' },
                          )
                        : null,
                ]),
        };
        sys.nodeOf = (o) => {
            if (o.inline && sys.sc.inline === 'drawer') {
                return all(document, '.vs-drawer').filter((d) => d.style.display !== 'none' && !d.classList.contains('drawer-leave-active'))[0];
            }
            return all(document, '.vs-modal-node').filter((n) => !isLeaving(n) && text(n) === o.label)[0];
        };
        sys.ask = (o) => {
            const d = deferred();
            sys.guards.push({ d, o });
            return d.promise;
        };
        sys.app = env.mount(root, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
        await env.flush();
        sys.$vs = lib.useVlossom();
        if (sc.initially) {
            sys.expected.push('inline open');
            sys.stack.push(own);
            sys.everOpened.push(own);
        }
        return sys;
    },

    enabled(sys) {
        const { sc } = sys;
        const out = [];
        if (sys.everOpened.filter((o) => !o.inline).length < sc.max) {
            sc.kinds.forEach((k) => out.push('open:' + k));
            out.push('open+close:' + sc.kinds[0]);
        }
        const containers = new Set(['body', ...sys.everOpened.map((o) => o.where)]);
        for (const c of containers) {
            out.push('close:' + c, 'clear:' + c);
        }
        const asked = sys.guards.length;
        if (asked < 2) {
            sys.everOpened.filter((o) => !o.inline || sc.inline !== 'drawer').forEach((o) => out.push('closeId:' + o.id));
            sys.stack.forEach((o) => out.push('beside:' + o.id));
        }
        out.push('esc');
        if (sc.replace && !sys.stack.some((o) => o.where === '#box')) {
            out.push('replace');
        }
        sys.guards.forEach((g, i) => out.push('agree:' + i, 'refuse:' + i));
        if (sc.inline) {
            const reopens = !sys.stack.includes(sys.own) && sys.guards.some((g) => g.o === sys.own);
            if (sys.state0.mounted) {
                reopens || out.push('write');
                out.push('unmount');
            }
        }
        return out;
    },

    async step(sys, action) {
        const { env, $vs, sc } = sys;
        sys.heard.length = 0;
        sys.expected.length = 0;
        sys.optional = [];
        const [kind, arg] = action.split(':');
        const open = (k) => {
            const spec = KINDS[k];
            const o = { ...spec, label: k + ++sys.n };
            o.id = o.label;
            const id = $vs.modal.open(o.label, { ...spec.options, id: o.id, callbacks: handlers(sys, o), beforeClose: spec.guard ? () => sys.ask(o) : undefined });
            if (id !== o.id) {
                sys.complaint = `open returned ${id} for a modal with id ${o.id}`;
            }
            sys.stack.push(o);
            sys.everOpened.push(o);
            sys.expected.push(o.id + ' open');
            return o;
        };
        const gone = (o) => {
            sys.stack = sys.stack.filter((x) => x !== o);
            sys.expected.push(o.id + ' close');
        };
        // a request to close o; call: the outcome of the promise handed back to the caller, if there is one
        const request = (o, before, call) => {
            call && sys.calls.push(call);
            if (!o) {
                call && (call.want = false);
            } else if (o.guard) {
                const fresh = sys.guards.slice(before);
                if (fresh.length !== 1 || fresh[0].o !== o) {
                    sys.complaint = `a request to close ${o.id} asked ${json(fresh.map((g) => g.o.id))} for permission`;
                } else {
                    fresh[0].call = call;
                }
            } else {
                gone(o);
                call && (call.want = true);
            }
        };
        const watched = (p) => {
            const call = { result: undefined };
            Promise.resolve(p).then(
                (v) => (call.result = v),
                (e) => (call.result = 'rejected ' + e),
            );
            return call;
        };
        const before = sys.guards.length;
        if (kind === 'open') {
            await env.act(() => open(arg));
        } else if (kind === 'open+close') {
            let call, o;
            await env.act(() => {
                o = open(arg);
                call = watched($vs.modal.close(o.where));
            });
            request(o, before, call);
        } else if (kind === 'close') {
            const o = [...sys.stack].reverse().find((x) => x.where === arg && !(x.inline && sc.inline === 'drawer')) || null;
            let call;
            await env.act(() => (call = watched($vs.modal.close(arg))));
            request(o, before, call);
        } else if (kind === 'closeId') {
            const o = sys.stack.find((x) => x.id === arg) || null;
            const where = sys.everOpened.find((x) => x.id === arg).where;
            let call;
            await env.act(() => (call = watched($vs.modal.closeWithId(where, arg))));
            request(o, before, call);
        } else if (kind === 'clear') {
            await env.act(() => $vs.modal.clear(arg));
            sys.stack.filter((x) => x.where === arg && !(x.inline && sc.inline === 'drawer')).forEach(gone);
        } else if (kind === 'esc') {
            const o = top(sys);
            await env.act(() => key(document.body, 'Escape'));
            if (o) {
                sys.expected.push(o.id + ' key Escape');
                o.esc && request(o, before);
            }
        } else if (kind === 'replace') {
            const box = document.createElement('div');
            box.id = 'box';
            document.querySelector('#box').replaceWith(box);
        } else if (kind === 'beside') {
            const o = sys.stack.find((x) => x.id === arg);
            const el = sys.nodeOf(o);
            const dim = el?.querySelector('.vs-dimmed');
            if (!dim) {
                sys.complaint = `${arg} has no dimmed backdrop`;
                return;
            }
            await env.act(() => click(dim));
            o.dim && request(o, before);
        } else if (kind === 'agree' || kind === 'refuse') {
            const g = sys.guards.splice(arg, 1)[0];
            await env.act(() => g.d.resolve(kind === 'agree' ? g.o.yes : false));
            const isOpen = sys.stack.includes(g.o);
            if (kind === 'agree') {
                isOpen && gone(g.o);
                g.call && (g.call.want = isOpen ? true : 'any');
            } else {
                g.call && (g.call.want = false);
            }
        } else if (kind === 'write') {
            const o = sys.own;
            const isOpen = sys.stack.includes(o);
            const target = !sys.state0.shown;
            await env.act(() => (sys.state0.shown = target));
            if (target && !isOpen) {
                sys.stack.push(o);
                sys.everOpened.includes(o) || sys.everOpened.push(o);
                sys.expected.push('inline open');
            } else if (!target && isOpen) {
                request(o, before);
            }
        } else if (kind === 'unmount') {
            const wasOpen = sys.stack.includes(sys.own);
            await env.act(() => (sys.state0.mounted = false));
            if (wasOpen) {
                sys.stack = sys.stack.filter((x) => x !== sys.own);
                sys.optional.push('inline close');
            }
        }
        await probe(sys);
    },

    verdict(sys) {
        const { env } = sys;
        if (sys.complaint) {
            return sys.complaint;
        }
        if (env.errors.length) {
            return 'an error was thrown: ' + env.errors[0];
        }
        let heard = [...sys.heard].sort();
        const want = [...sys.expected].sort();
        for (const o of sys.optional || []) {
            if (!want.includes(o)) {
                const i = heard.indexOf(o);
                i >= 0 && heard.splice(i, 1);
            }
        }
        if (json(heard) !== json(want)) {
            return `handlers heard ${json(heard)}, expected ${json(want)}`;
        }
        for (const where of ['body', '#box']) {
            const views = all(document.querySelector(where), ':scope > .vs-modal-view');
            const shown = views.flatMap((v) => all(v, '.vs-modal-node')).filter((n) => !isLeaving(n)).map(text);
            const open = sys.stack.filter((o) => o.where === where && !(o.inline && sys.sc.inline === 'drawer')).map((o) => o.label);
            if (json(shown) !== json(open)) {
                return `the page shows ${json(shown)} in ${where}, expected ${json(open)}`;
            }
        }
        if (sys.sc.inline && sys.state0.mounted) {
            const open = sys.stack.includes(sys.own);
            if (sys.sc.inline === 'drawer' && !!sys.nodeOf(sys.own) !== open) {
                return `the drawer is ${open ? 'not ' : ''}shown although it is ${open ? 'open' : 'closed'}`;
            }
            const undecided = sys.guards.some((g) => g.o === sys.own);
            if (!undecided && sys.state0.shown !== open) {
                return `v-model is ${sys.state0.shown} although the overlay is ${open ? 'open' : 'closed'}`;
            }
        }
        for (const c of sys.calls) {
            if (c.want !== undefined && c.want !== 'any' && c.result !== c.want) {
                return `a close request reported ${c.result}, expected ${c.want}`;
            }
            if (c.want === 'any' && typeof c.result !== 'boolean') {
                return `a decided close request reported ${c.result}`;
            }
            if (c.want === undefined && c.result !== undefined) {
                return `a close request reported ${c.result} before its guard decided`;
            }
        }
        return null;
    },

    async finish(sys) {
        await sys.env.advance(2000);
        const left = all(document, '.vs-modal-node').map(text);
        const open = sys.stack.filter((o) => !(o.inline && sys.sc.inline === 'drawer')).map((o) => o.label);
        if (json([...left].sort()) !== json([...open].sort())) {
            return `after the animations the page holds ${json(left)}, expected ${json(open)}`;
        }
        return null;
    },

    state(sys) {
        return json([sys.stack.map((o) => o.id), sys.guards.map((g) => g.o.id), sys.state0.shown, sys.state0.mounted]);
    },
};
