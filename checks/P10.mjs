// Alert, confirm and prompt: every dialog is answered once, by its own buttons and keys, with its own answer.
import { all, click, json, key, text, typeInto } from '../lib/kit.mjs';

const KINDS = {
    alert: { plugin: 'alert', options: {}, dismissed: undefined },
    confirm: { plugin: 'confirm', options: { dimmed: true }, dismissed: false },
    confirmBox: { plugin: 'confirm', options: { container: '#box', dimmed: true, okText: 'Yes', cancelText: 'No', swapButtons: true }, dismissed: false },
    confirmHeld: { plugin: 'confirm', options: { dimmed: true, dimClose: false, escClose: false }, dismissed: false },
    alertBox: { plugin: 'alert', options: { container: '#box', okText: 'Fine', dimmed: true }, dismissed: undefined },
    prompt: { plugin: 'prompt', options: { dimmed: true }, value: '', dismissed: null },
    promptRequired: { plugin: 'prompt', options: { input: { required: true } }, value: '', dismissed: null, valid: (v) => v !== '' },
    promptNumber: { plugin: 'prompt', options: { input: { type: 'number', initialValue: 5, min: 3 }, container: '#box', okText: 'Go' }, value: 5, dismissed: null, number: true, valid: (v) => v === null || v >= 3 },
    promptZero: { plugin: 'prompt', options: { input: { type: 'number', initialValue: 0, required: true } }, value: 0, dismissed: null, number: true, valid: (v) => v !== null },
    promptText: { plugin: 'prompt', options: { input: { initialValue: 'abc', max: 3 }, okText: 'Go', cancelText: 'Stop' }, value: 'abc', dismissed: null, valid: (v) => v.length <= 3 },
    nowhere: { plugin: 'confirm', options: { container: '#missing' }, dismissed: false, unseen: true },
    nowhereAlert: { plugin: 'alert', options: { container: '#missing' }, dismissed: undefined, unseen: true },
    nowherePrompt: { plugin: 'prompt', options: { container: '#missing' }, dismissed: null, unseen: true },
    modal: { plugin: 'modal', options: {} },
};

const SCENARIOS = [
    { name: 'confirm over confirm', kinds: ['confirm', 'confirmBox'], max: 3, depth: 4, deep: 5 },
    { name: 'alert over confirm', kinds: ['alert', 'confirmHeld'], max: 3, depth: 4, deep: 6 },
    { name: 'prompt over alert', kinds: ['prompt', 'alertBox'], max: 2, depth: 4, deep: 6 },
    { name: 'required prompt over confirm', kinds: ['promptRequired', 'confirm'], max: 2, depth: 4, deep: 6 },
    { name: 'two prompts', kinds: ['prompt', 'promptNumber'], max: 2, depth: 4, deep: 5 },
    { name: 'prompts with a starting value', kinds: ['promptZero', 'promptText'], max: 2, depth: 3, deep: 5 },
    { name: 'modal over dialogs', kinds: ['confirm', 'modal'], max: 2, depth: 4, deep: 6 },
    { name: 'dialogs that cannot be shown', kinds: ['confirm', 'nowhere', 'nowhereAlert', 'nowherePrompt'], max: 2, depth: 4, deep: 4 },
];

const isLeaving = (el) => el.classList.contains('modal-leave-active');
const PENDING = 'pending';
const top = (sys) => sys.stack[sys.stack.length - 1] || null;
const where = (d) => d.options.container || 'body';

export default {
    id: 'P10',
    world: 'ui',
    method: 'every sequence, up to the depth, of opening dialogs over one another, clicking the buttons of any dialog still on the page (also while it fades out), Enter, Escape, typing, clicks beside it and programmatic closing; every promise is compared with a reference after every step',
    assumptions: ['dialogs take no close guard (their options exclude it)'],

    scenarios(tier) {
        return SCENARIOS.map((s) => ({ ...s, depth: tier === 'thorough' ? s.deep : s.depth }));
    },

    async start(env, sc) {
        const { h } = env.vue;
        const lib = env.instance();
        const box = document.createElement('div');
        box.id = 'box';
        document.body.appendChild(box);
        const sys = { env, sc, stack: [], opened: [], complaint: null };
        sys.app = env.mount({ render: () => h('div') }, { plugins: [lib.createVlossom({ components: lib.VlossomComponents })] });
        await env.flush();
        sys.$vs = lib.useVlossom();
        sys.node = (d) => all(document, '.vs-modal-node').find((n) => n.textContent.includes(d.label)) || null;
        sys.button = (d, which) => {
            const want = which === 'ok' ? (d.options.okText ?? 'OK') : (d.options.cancelText ?? 'Cancel');
            const n = sys.node(d);
            return n ? all(n, 'button').find((b) => text(b) === want) || null : null;
        };
        return sys;
    },

    enabled(sys) {
        const out = [];
        if (sys.opened.length < sys.sc.max) {
            sys.sc.kinds.forEach((k) => out.push('open:' + k));
        }
        sys.opened.forEach((d, i) => {
            if (d.plugin === 'modal' || d.unseen || !sys.node(d)) {
                return;
            }
            out.push('ok:' + i);
            d.plugin !== 'alert' && out.push('cancel:' + i);
            if (sys.stack.includes(d)) {
                d.plugin === 'prompt' && out.push('type:' + i);
                d.options.dimmed && out.push('beside:' + i);
                out.push('closeId:' + i);
            }
        });
        if (sys.stack.length) {
            out.push('enter', 'escape', 'close', 'clear');
        }
        if (all(document, '.vs-modal-node').some(isLeaving)) {
            out.push('fade');
        }
        return out;
    },

    async step(sys, action) {
        const { env, $vs } = sys;
        const [kind, arg] = action.split(':');
        const d = sys.opened[arg];
        const answer = (x, value) => {
            x.want = value;
            sys.stack = sys.stack.filter((o) => o !== x);
        };
        const agree = (x) => {
            if (x.plugin === 'alert') {
                answer(x, undefined);
            } else if (x.plugin === 'confirm') {
                answer(x, true);
            } else if (x.plugin === 'prompt' && (x.valid ? x.valid(x.value) : true)) {
                answer(x, x.value);
            }
        };
        if (kind === 'open') {
            const spec = KINDS[arg];
            const x = { ...spec, label: `[${arg}${sys.opened.length}]`, id: arg + sys.opened.length, got: PENDING, want: PENDING, settled: 0 };
            sys.opened.push(x);
            await env.act(() => {
                const p = $vs[spec.plugin].open(x.label, { ...spec.options, id: x.id });
                if (spec.plugin !== 'modal') {
                    p.then(
                        (v) => ((x.got = v), x.settled++),
                        (e) => ((x.got = 'rejected ' + e), x.settled++),
                    );
                }
            });
            if (spec.unseen) {
                x.want = x.dismissed;
            } else {
                sys.stack.push(x);
            }
        } else if (kind === 'ok' || kind === 'cancel') {
            const b = sys.button(d, kind);
            if (!b) {
                sys.complaint = `${d.label} has no ${kind} button`;
                return;
            }
            await env.act(() => click(b));
            if (sys.stack.includes(d)) {
                kind === 'ok' ? agree(d) : answer(d, d.dismissed);
            }
        } else if (kind === 'type') {
            const input = sys.node(d).querySelector('input');
            d.typed = (d.typed || 0) + 1;
            const s = d.number ? String(d.typed) : d.typed % 2 ? 'abc' : '';
            await env.act(() => typeInto(input, s));
            d.number && (await env.act(() => input.dispatchEvent(new Event('change', { bubbles: true }))));
            d.value = d.number ? Number(s) : s;
        } else if (kind === 'beside') {
            await env.act(() => click(sys.node(d).querySelector('.vs-dimmed')));
            d.options.dimClose === false || answer(d, d.dismissed);
        } else if (kind === 'closeId') {
            await env.act(() => void $vs.modal.closeWithId(where(d), d.id));
            answer(d, d.dismissed);
        } else if (kind === 'enter' || kind === 'escape') {
            const x = top(sys);
            const input = sys.node(x)?.querySelector('input');
            await env.act(() => key(input || document.body, kind === 'enter' ? 'Enter' : 'Escape'));
            if (kind === 'enter') {
                x.plugin !== 'modal' && agree(x);
            } else {
                answer(x, x.dismissed);
            }
        } else if (kind === 'close') {
            const x = [...sys.stack].reverse().find((o) => where(o) === 'body');
            await env.act(() => void $vs.modal.close());
            x && answer(x, x.dismissed);
        } else if (kind === 'clear') {
            await env.act(() => $vs.modal.clear());
            sys.stack.filter((o) => where(o) === 'body').forEach((x) => answer(x, x.dismissed));
        } else if (kind === 'fade') {
            await env.advance(400);
        }
    },

    verdict(sys) {
        if (sys.complaint) {
            return sys.complaint;
        }
        if (sys.env.errors.length) {
            return 'an error was thrown: ' + sys.env.errors[0];
        }
        for (const d of sys.opened) {
            if (d.plugin === 'modal') {
                continue;
            }
            if (d.got !== d.want) {
                return `${d.label} answered ${json(d.got)}, expected ${json(d.want)}`;
            }
            const n = sys.node(d);
            const shown = !!n && !isLeaving(n);
            if (shown !== sys.stack.includes(d)) {
                return `${d.label} is ${shown ? 'still' : 'not'} on the page although it is ${shown ? 'answered' : 'unanswered'}`;
            }
        }
        return null;
    },

    state(sys) {
        return json([sys.opened.map((d) => [d.label, d.got, d.value]), sys.stack.map((d) => d.label)]);
    },
};
