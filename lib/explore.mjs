// Stateless, exhaustive, depth-bounded exploration of a closed system by prefix replay.
//
// A check exports:
//   scenarios(tier)            -> [{name, depth, ...}] (plain JSON; each is one closed system and one bound)
//   start(world, scenario)     -> sys          a fresh system (fresh module instances)
//   enabled(sys)               -> [action]     every choice the environment has now (deterministic, finite)
//   step(sys, action)          -> void         performs it on the real code (and on the reference model)
//   verdict(sys)               -> null | msg   evaluated after start and after every step
//   finish(sys)                -> null | msg   evaluated at the end of every maximal execution (may act on sys)
//   state(sys)                 -> string       canonical state, for counting (and pruning if scenario.prune)
//   stop(sys)                  -> void
// Every action sequence of length <= depth is executed. With scenario.prune, a state already expanded with
// at least the same remaining depth is not expanded again (state() must then determine the futures).
import crypto from 'node:crypto';

export class Divergence extends Error {}

// Where the exploration is now; the parent process reads it when nothing moves any more.
export const position = { note: () => {} };

// The system under test threw, or stopped being operable, in the middle of an allowed schedule.
const broke = (e) => `the schedule could not be carried out: ${String((e && e.stack) || e).split('\n').slice(0, 4).join(' | ')}`;

export const hash = (s) => crypto.createHash('sha1').update(s).digest('hex').slice(0, 13);

// Runs `prefix` (must be enabled step by step), then the first enabled action until `depth`.
// onStep(i, enabled, stateHash, fresh) may return 'stop' to end the execution early.
export async function execute(check, world, scenario, prefix, depth, hooks = {}) {
    const points = [];
    const trace = [];
    let sys;
    let violation = null;
    let pruned = false;
    const actions = [];
    const observe = () => {
        const s = check.state(sys);
        trace.push(s);
        return s;
    };
    try {
        position.note(scenario, actions);
        sys = await check.start(world, scenario);
        let v = await check.verdict(sys);
        let s = observe();
        if (v) {
            violation = { at: 0, actions: [], message: v };
        }
        for (let i = 0; !violation && i < depth; i++) {
            const enabled = check.enabled(sys);
            if (i >= prefix.length && hooks.onState && hooks.onState(s, depth - i, i) === 'prune') {
                pruned = true;
                break;
            }
            if (enabled.length === 0) {
                if (i < prefix.length) {
                    throw new Divergence(`nothing enabled at step ${i} of [${prefix.join(' ')}]`);
                }
                break;
            }
            let action;
            if (i < prefix.length) {
                action = prefix[i];
                if (!enabled.includes(action)) {
                    throw new Divergence(`'${action}' not enabled at step ${i} of [${prefix.join(' ')}]: ${enabled.join(' ')}`);
                }
            } else {
                action = enabled[0];
                points.push({ i, enabled });
            }
            actions.push(action);
            position.note(scenario, actions);
            await check.step(sys, action);
            v = await check.verdict(sys);
            s = observe();
            if (v) {
                violation = { at: i + 1, actions: actions.slice(), message: v };
            }
        }
        if (!violation && !pruned) {
            if (hooks.onState) {
                hooks.onState(s, 0, actions.length);
            }
            if (check.finish) {
                v = await check.finish(sys);
                if (v) {
                    violation = { at: actions.length, actions: actions.slice(), message: v, finish: true };
                }
            }
        }
    } catch (e) {
        if (e instanceof Divergence) {
            throw e;
        }
        violation = { at: actions.length, actions: actions.slice(), message: broke(e) };
        trace.push(broke(e));
    } finally {
        if (sys) {
            await tolerate(() => check.stop?.(sys));
        }
        await world.reset();
    }
    return { points, trace, violation, pruned, actions };
}

async function tolerate(fn) {
    try {
        await fn();
    } catch {
        // the execution already has its verdict
    }
}

// Explores the whole subtree below `root` (a prefix).
export async function exploreSubtree(check, world, scenario, root, depth, opts = {}) {
    const stats = { executions: 0, transitions: 0, states: new Set(), violation: null, maxDepth: 0, pruned: 0, samples: [], outcomes: new Set() };
    const seen = scenario.prune ? new Map() : null;
    const stack = [root];
    while (stack.length) {
        const prefix = stack.pop();
        const hooks = {
            onState(s, remaining, i) {
                const h = hash(s);
                stats.states.add(h);
                if (!seen || i <= root.length) {
                    return null;
                }
                const before = seen.get(h);
                if (before !== undefined && before >= remaining) {
                    return 'prune';
                }
                seen.set(h, remaining);
                return null;
            },
        };
        const run = await execute(check, world, scenario, prefix, depth, hooks);
        stats.executions++;
        stats.transitions += run.actions.length - Math.max(0, prefix.length - 1);
        if (run.pruned) {
            stats.pruned++;
        }
        stats.maxDepth = Math.max(stats.maxDepth, run.actions.length);
        stats.outcomes.add(hash(run.trace[run.trace.length - 1]));
        if (stats.samples.length < 2) {
            stats.samples.push({ scenario: scenario.name, actions: run.actions });
        }
        if (run.violation) {
            stats.violation = { scenario, ...run.violation };
            return stats;
        }
        if (opts.deadline && Date.now() > opts.deadline) {
            stats.capped = true;
            return stats;
        }
        for (const p of run.points) {
            for (let a = p.enabled.length - 1; a >= 1; a--) {
                stack.push([...run.actions.slice(0, p.i), p.enabled[a]]);
            }
        }
    }
    return stats;
}

// All prefixes of length `len` (or shorter where the execution ends earlier).
export async function prefixes(check, world, scenario, len) {
    const out = [];
    const stack = [[]];
    const stats = { executions: 0, violation: null };
    while (stack.length) {
        const prefix = stack.pop();
        if (prefix.length >= len) {
            out.push(prefix);
            continue;
        }
        let sys;
        let enabled = [];
        try {
            position.note(scenario, []);
            sys = await check.start(world, scenario);
            for (let i = 0; i < prefix.length; i++) {
                position.note(scenario, prefix.slice(0, i + 1));
                await check.step(sys, prefix[i]);
            }
            enabled = check.enabled(sys);
        } catch {
            // exploring this prefix will show the same failure, and report it
        } finally {
            if (sys) {
                await tolerate(() => check.stop?.(sys));
            }
            await world.reset();
        }
        if (enabled.length === 0) {
            out.push(prefix);
            continue;
        }
        for (const a of [...enabled].reverse()) {
            stack.push([...prefix, a]);
        }
    }
    return { list: out, stats };
}
