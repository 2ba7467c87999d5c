// Every answer carries an account of the session so far.
import { GitHub } from '../lib/mcp-env.mjs';
import { json } from '../lib/kit.mjs';
import { repo } from '../lib/mcp-world.mjs';

const MINUTE = 60_000;
const LONG = 'a very long description of what is to be built on this page';

// label -> [tool, arguments, label of the step, summary of the step]
const CALLS = {
    search: ['search_vlossom', { query: 'button' }, 'Search: button', (d) => `${d.total} results`],
    searchAll: ['search_vlossom', { query: 'vs', target: 'all' }, 'Search: vs', (d) => (d.status === 'ambiguous' ? `${d.choices.length} choices` : `${d.total} results`)],
    searchLong: ['search_vlossom', { query: LONG, target: 'token' }, `Search: ${LONG.slice(0, 32)}`, () => '0 results'],
    list: ['search_vlossom', { target: 'rule' }, 'Search: rule', (d) => `${d.results.length} results`],
    reference: ['get_vlossom_reference', { type: 'component', id: 'VsButton' }, 'component: VsButton', () => 'reference found'],
    missing: ['get_vlossom_reference', { type: 'component', id: 'VsNope' }, 'component: VsNope', () => 'not found'],
    index: ['get_vlossom_reference', { type: 'rule' }, 'rule: index', (d) => (d.found ? 'reference found' : 'not found')],
    scaffold: ['scaffold_vlossom_code', { kind: 'component-usage', description: LONG, components: ['VsButton'], context: { version: '2.2.0' } }, `component-usage: ${LONG.slice(0, 28)}`, () => 'scaffold ready'],
    refused: ['scaffold_vlossom_code', { kind: 'component-usage', description: 'x', components: ['VsNope'], context: { version: '2.2.0' } }, 'component-usage: x', () => 'scaffold rejected'],
    unversioned: ['scaffold_vlossom_code', { kind: 'style-set', description: 'y', component: 'VsButton' }, 'style-set: y', () => 'scaffold rejected'],
    warned: ['validate_vlossom_usage', { kind: 'sfc', code: '<template>\n<button>x</button></template>', context: { vlossomFirst: 'prefer' } }, 'Validate: sfc', (d) => (d.valid && d.issues.length ? 'valid' : 'a warning was expected')],
    valid: ['validate_vlossom_usage', { kind: 'snippet', code: '<vs-button />' }, 'Validate: snippet', () => 'valid'],
    invalid: ['validate_vlossom_usage', { kind: 'sfc', code: '<vs-nope />\n<vs-button nope="1" />' }, 'Validate: sfc', (d) => `${d.issues.length} issues`],
    skipped: ['validate_vlossom_usage', { kind: 'sfc', code: '' }, 'Validate: sfc', () => 'skipped'],
};

export default {
    id: 'P18',
    world: 'mcp',
    method: 'stateless exhaustive exploration of tool call sequences and pauses on the real server under a virtual clock; the account in every answer is compared with the calls made',
    assumptions: ['calls of one session do not overlap'],
    scenarios(tier) {
        const deep = tier === 'thorough';
        const waits = (m) => [1, m - 1, m, m + 1].filter((x) => x > 0);
        return [
            { name: 'default', depth: deep ? 5 : 4, split: 2, calls: ['search', 'reference', 'scaffold', 'valid', 'missing'], waits: waits(30), minutes: 30 },
            { name: 'kinds', depth: deep ? 4 : 3, split: 1, calls: Object.keys(CALLS), waits: [], minutes: 30 },
            { name: 'short', env: { VLOSSOM_MCP_SESSION_TIMEOUT: '2' }, minutes: 2, depth: deep ? 6 : 5, split: 2, calls: ['list', 'index', 'skipped', 'refused'], waits: [...waits(2).slice(-3), 2 + 1 / MINUTE] },
            { name: 'never', env: { VLOSSOM_MCP_SESSION_TIMEOUT: '0' }, minutes: null, depth: deep ? 6 : 5, split: 2, calls: ['list', 'index', 'refused'], waits: [31, 100_000] },
            { name: 'half', env: { VLOSSOM_MCP_SESSION_TIMEOUT: '0.5' }, minutes: 0.5, depth: deep ? 6 : 5, split: 2, calls: ['index', 'refused', 'searchAll'], waits: [0.25, 0.5, 0.75] },
            { name: 'slow', depth: deep ? 4 : 3, split: 2, calls: ['searchLong', 'reference', 'invalid', 'scaffold'], waits: [], minutes: 30, slow: [0, 7, 40] },
        ];
    },

    async start(world, scenario) {
        const sys = { scenario, steps: [], root: undefined, fresh: true, bad: null, last: null, trail: [], given: [] };
        sys.github = new GitHub(repo);
        sys.server = await world.server({ github: sys.github, env: scenario.env ?? {} });
        const real = sys.github.fetch.bind(sys.github);
        sys.github.fetch = (...a) => {
            sys.server.clock.now += sys.delay ?? 0;
            return real(...a);
        };
        sys.idle = sys.server.clock.now;
        return sys;
    },
    enabled(sys) {
        const { calls, waits, slow } = sys.scenario;
        const last = sys.trail[sys.trail.length - 1];
        const c = slow ? calls.flatMap((n) => slow.map((d) => `${n} ${d}`)) : calls;
        return [...c, ...(last?.startsWith('wait ') ? [] : waits.map((w) => `wait ${w}`))];
    },
    async step(sys, action) {
        sys.trail.push(action);
        const clock = sys.server.clock;
        const [what, amount = 0] = action.split(' ');
        if (what === 'wait') {
            clock.now += Math.round(Number(amount) * MINUTE);
            return;
        }
        const [tool, args, label, summary] = CALLS[what];
        sys.delay = Number(amount);
        const began = clock.now;
        const { data, meta, text } = await sys.server.call(tool, args);
        if (!data || !meta) {
            sys.bad = `no account with the answer to ${what}`;
            return;
        }
        // the session starts anew with a search and after a pause
        if (tool === 'search_vlossom' || clock.now - sys.idle > (sys.scenario.minutes ?? Infinity) * MINUTE) {
            sys.steps = [];
            sys.root = undefined;
        }
        sys.idle = clock.now;
        const starts = tool === 'search_vlossom' || tool === 'scaffold_vlossom_code';
        const n = sys.steps.length + 1;
        const own = summary(data);
        sys.steps.push({ step: n, label, tool, durationMs: clock.now - began, summary: own, parentStep: starts ? undefined : sys.root });
        if (starts) {
            sys.root = n;
        }
        // an answer already given stays as it was
        if (sys.given.some(([m, j]) => json(m) !== j)) {
            sys.bad = `the account given with an earlier answer changed`;
        }
        sys.given.push([meta, json(meta)]);
        const shape = (s) => [s.step, s.label, s.tool, s.durationMs, s.summary, s.parentStep];
        if (json(meta.steps.map(shape)) !== json(sys.steps.map(shape))) {
            sys.bad = `the steps are ${json(meta.steps.map(shape))} instead of ${json(sys.steps.map(shape))}`;
        }
        const counts = new Map();
        sys.steps.forEach((s) => counts.set(s.tool, (counts.get(s.tool) ?? 0) + 1));
        const used = [...counts].map(([t, k]) => (k > 1 ? `${t} ×${k}` : t));
        if (json(meta.toolsUsed) !== json(used)) {
            sys.bad ??= `the tools used are ${json(meta.toolsUsed)} instead of ${json(used)}`;
        }
        const total = sys.steps.reduce((a, s) => a + s.durationMs, 0);
        if (meta.totalDurationMs !== total) {
            sys.bad ??= `the time taken is ${meta.totalDurationMs} instead of ${total}`;
        }
        const written = JSON.parse(text);
        const { _meta, ...payload } = written;
        if (json(_meta) !== json(JSON.parse(JSON.stringify(meta))) || json(payload) !== json(JSON.parse(JSON.stringify(data)))) {
            sys.bad ??= `the text of the answer differs from its data`;
        }
        sys.last = json([meta.steps.length, meta.toolsUsed]);
    },
    verdict: (sys) => sys.bad,
    state: (sys) => json([sys.trail.length, sys.steps.map((s) => [s.label, s.parentStep, s.durationMs])]),
};
