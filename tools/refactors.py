#!/usr/bin/env python3
"""Rewritings of the code that keep its behaviour; every check has to stay quiet on them.

refactors.py OUTDIR   writes OUTDIR/A.diff, B.diff, ... (run them with iso.py)
"""
import os
import subprocess
import sys
import tempfile

G = "optlib/src/genetic/mod.rs"
P = "optlib/src/particleswarm/mod.rs"
SEL = "optlib/src/genetic/selection/mod.rs"
SELF = "optlib/src/genetic/selection/vec_float.rs"
PRE = "optlib/src/genetic/pre_birth/vec_float.rs"
PAIR = "optlib/src/genetic/pairing/mod.rs"
CROSS = "optlib/src/genetic/cross/mod.rs"
MUT = "optlib/src/genetic/mutation/mod.rs"
CREATE = "optlib/src/genetic/creation/vec_float.rs"
VEL = "optlib/src/particleswarm/velocitycalc/mod.rs"
PV = "optlib/src/particleswarm/postvelocitycalc/mod.rs"
PM = "optlib/src/particleswarm/postmove/mod.rs"
INIT = "optlib/src/particleswarm/initializing/mod.rs"
TOOLS = "optlib/src/tools/mod.rs"
STOP = "optlib/src/tools/stopchecker/mod.rs"
STAT = "optlib/src/tools/statistics/mod.rs"
LOG = "optlib/src/tools/logging/mod.rs"
FUNC = "optlib-testfunc/src/lib.rs"

A = [
    # crossing and mutating family by family
    (G, """            let mut child_chromosomes = self.cross.cross(&cross_chromosomes);
            new_chromosomes.append(&mut child_chromosomes);
""", """            let children = self.cross.cross(&cross_chromosomes);
            for child in &children {
                new_chromosomes.push(self.mutation.mutation(child));
            }
"""),
    (G, """            let mut children_chromo_list = self.run_pairing();

            // Mutation
            let mut children_mutants: Vec<T> = children_chromo_list
                .iter_mut()
                .map(|chromo| self.mutation.mutation(chromo))
                .collect();
""", """            let mut children_mutants = self.run_pairing();
"""),
    (G, """            self.population.remove_dead();

            self.population.update_best_worst_individuals();

            self.population.next_iteration();
""", """            self.population.next_iteration();
            self.population.remove_dead();
            self.population.update_best_worst_individuals();
"""),
    (G, """        match &self.population.best_individual {
            None => None,
            Some(individual) => Some((individual.chromosomes.clone(), individual.fitness)),
        }
    }
}

impl<'a, T: Clone> Optimizer""", """        self.population.get_best_solution()
    }
}

impl<'a, T: Clone> Optimizer"""),
    (G, """        for chromosome in chromosomes_list {
            self.push(chromosome);
        }
""", """        let goal = &mut self.goal;
        let newborns: Vec<Individual<T>> = chromosomes_list
            .into_iter()
            .map(|chromosomes| {
                let fitness = goal.get(&chromosomes);
                Individual {
                    chromosomes,
                    fitness,
                    alive: true,
                }
            })
            .collect();
        self.individuals.extend(newborns);
"""),
    (G, """    fn push(&mut self, chromosomes: T) {
        let fitness = self.goal.get(&chromosomes);
        let new_individual = Individual {
            chromosomes,
            fitness,
            alive: true,
        };

        self.individuals.push(new_individual);
    }
""", ""),
    (P, """                self.swarm.particles[n].set_velocity(new_velocity);

""", ""),
    (P, "                    .zip(self.swarm.particles[n].velocity.iter())", "                    .zip(new_velocity.iter())"),
    (P, "                self.swarm.particles[n].move_to(new_coordinates, new_value);", "                let particle = &mut self.swarm.particles[n];\n                particle.move_to(new_coordinates, new_value);\n                particle.set_velocity(new_velocity);"),
    (P, """        let mut coordinates = self.coordinates_initializer.get_coordinates();
        let velocity = self.velocity_initializer.get_velocity();
""", """        let velocity = self.velocity_initializer.get_velocity();
        let mut coordinates = self.coordinates_initializer.get_coordinates();
"""),
    (P, """            self.swarm.update_best_particle();
            self.swarm.update_worst_particle();
            self.swarm.next_iteration();
""", """            self.swarm.next_iteration();
            self.swarm.update_worst_particle();
            self.swarm.update_best_particle();
"""),
    (P, """                    .calc_new_velocity(&self.swarm, &self.swarm.particles[n]);
""", """                    .calc_new_velocity(&self.swarm, &self.swarm.particles[n].clone());
"""),
    (SEL, """        for individual in population.iter_mut() {
            if !individual.get_fitness().is_finite() {
                individual.kill();
            }
        }
""", """        population
            .iter_mut()
            .filter(|individual| {
                let fitness = individual.get_fitness();
                fitness.is_nan() || fitness.is_infinite()
            })
            .for_each(|individual| individual.kill());
"""),
    (SELF, """                if !chromo.is_finite() || *chromo < interval.0 || *chromo > interval.1 {
                    individual.kill();
                    break;
                }
            }
""", """                let (min, max) = *interval;
                good = good && chromo.is_finite() && *chromo >= min && *chromo <= max;
            }
            if !good {
                individual.kill();
            }
"""),
    (SELF, "            for (chromo, interval) in individual\n", "            let mut good = true;\n            for (chromo, interval) in individual\n"),
    (PRE, "        new_chromosomes.retain(|chromosomes| self.check_chromo(chromosomes));",
     "        let all: Vec<Vec<G>> = new_chromosomes.drain(..).collect();\n        for chromosomes in all {\n            if self.check_chromo(&chromosomes) {\n                new_chromosomes.push(chromosomes);\n            }\n        }"),
    (PAIR, """        for _ in 0..count {
            let first = between.sample(&mut self.random);
            let second = between.sample(&mut self.random);
            let pair = vec![first, second];
            pairs.push(pair);
        }
""", """        while pairs.len() < count {
            pairs.push((0..2).map(|_| between.sample(&mut self.random)).collect());
        }
"""),
    (PAIR, """                let mut best_ind_index = between.sample(&mut self.random);

                // Loop for tournaments rounds
                for _ in 0..self.rounds_count {
                    let challenger = between.sample(&mut self.random);
                    if population
                        .individuals_min_cmp(&population[challenger], &population[best_ind_index])
                        == Ordering::Less
                    {
                        best_ind_index = challenger;
                    }
                }
                family.push(best_ind_index);
""", """                let contestants: Vec<usize> = (0..=self.rounds_count)
                    .map(|_| between.sample(&mut self.random))
                    .collect();
                let mut winner = contestants[0];
                for i in &contestants[1..] {
                    if population.individuals_min_cmp(&population[*i], &population[winner])
                        != Ordering::Greater
                    {
                        winner = *i;
                    }
                }
                family.push(winner);
"""),
    (CROSS, """        let mut result: G = parents_genes
            .iter()
            .fold(G::zero(), |x, y| x + (**y).clone());

        result = result / G::from(parents_genes.len()).unwrap();
        vec![result]""", """        let mut sum = G::zero();
        for gene in parents_genes.iter().rev() {
            sum = (*gene).clone() + sum;
        }
        vec![sum / G::from(parents_genes.len()).unwrap()]"""),
    (CROSS, """        let mantissa_pos = mantissa_between.sample(&mut self.random);
        let exponent_pos = exponent_between.sample(&mut self.random);

        let mantissa_child = cross_u64(mantissa_1, mantissa_2, mantissa_pos);
        let exponent_child = cross_i16(exponent_1, exponent_2, exponent_pos);

        let sign_child = match Uniform::new_inclusive(0i8, 1i8).sample(&mut self.random) {
            0 => sign_1,
            1 => sign_2,
            _ => panic!("Invalid random value in FloatCrossExp"),
        };
""", """        let sign_child = if self.random.gen::<bool>() { sign_1 } else { sign_2 };
        let exponent_pos = exponent_between.sample(&mut self.random);
        let mantissa_pos = mantissa_between.sample(&mut self.random);

        let exponent_child = cross_i16(exponent_1, exponent_2, exponent_pos);
        let mantissa_child = cross_u64(mantissa_1, mantissa_2, mantissa_pos);
"""),
    (CROSS, "use rand::rngs::ThreadRng;", "use rand::rngs::ThreadRng;\nuse rand::Rng;"),
    (CROSS, """        let size = mem::size_of::<f64>() * 8;
        let between = Uniform::new(1, size);
        let pos = between.sample(&mut self.random);
""", """        let pos = self.random.gen_range(1, 64);
"""),
    (CROSS, """    let mask_parent_1 = !0u64 << pos;
    let mask_parent_2 = !0u64 >> (size - pos);
    (parent_1 & mask_parent_1) | (parent_2 & mask_parent_2)
""", """    assert!(pos <= size);
    let mask = (1u64 << pos) - 1;
    (parent_1 & !mask) | (parent_2 & mask)
"""),
    (MUT, """            if mutate.sample(&mut self.random) < self.probability {
                result.push(self.single_mutation.mutation(&chromo));
            } else {
                result.push(chromo.clone());
            }
""", """            let mut gene = chromo.clone();
            if self.probability > mutate.sample(&mut self.random) {
                gene = self.single_mutation.mutation(&gene);
            }
            result.push(gene);
"""),
    (CREATE, """                let between = Uniform::new_inclusive(
                    interval.0.to_f64().unwrap(),
                    interval.1.to_f64().unwrap(),
                );
                chromo.push(G::from(between.sample(&mut self.random)).unwrap());
""", """                let (min, max) = (interval.0.to_f64().unwrap(), interval.1.to_f64().unwrap());
                let value = min + (max - min) * self.random.gen::<f64>();
                chromo.push(G::from(value.max(min).min(max)).unwrap());
"""),
    (CREATE, "use rand::distributions::{Distribution, Uniform};\nuse rand::rngs::ThreadRng;", "use rand::rngs::ThreadRng;\nuse rand::Rng;"),
    # velocity rules: other order of draws and of terms
    (VEL, """            let r_personal = T::from(between.sample(&mut self.random)).unwrap();
            let r_global = T::from(between.sample(&mut self.random)).unwrap();

            let velocity_item = particle.velocity[i]
                + self.phi_personal
                    * r_personal
                    * (particle.best_personal_coordinates[i] - particle.coordinates[i])
                + self.phi_global * r_global * (global_best_solution[i] - particle.coordinates[i]);
            new_velocity.push(velocity_item);
        }

        new_velocity
    }
}
""", """            let r_global = T::from(between.sample(&mut self.random)).unwrap();
            let r_personal = T::from(between.sample(&mut self.random)).unwrap();

            let social = (global_best_solution[i] - particle.coordinates[i]) * (self.phi_global * r_global);
            let own = (particle.best_personal_coordinates[i] - particle.coordinates[i])
                * (self.phi_personal * r_personal);
            new_velocity.push(social + own + particle.velocity[i]);
        }

        new_velocity
    }
}
"""),
    (VEL, """            let velocity_item = self.xi
                * (particle.velocity[i] + v_best_personal""", """            let velocity_item = particle.velocity[i] * self.xi + self.xi
                * (v_best_personal"""),
    (PV, """                if v.abs() <= *v_max {
                    *v
                } else {
                    v_max.abs() * v.signum()
                }
""", """                if *v > *v_max {
                    *v_max
                } else if *v < -*v_max {
                    -*v_max
                } else {
                    *v
                }
"""),
    (PV, "                .map(|vi| (*vi) / current_velocity_abs * self.max_velocity)", "                .map(|vi| self.max_velocity * ((*vi) / current_velocity_abs))"),
    (PM, """            if coordinates[i] < self.intervals[i].0 {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] > self.intervals[i].1 {
                coordinates[i] = self.intervals[i].1;
            }
""", """            let (min, max) = self.intervals[i];
            coordinates[i] = coordinates[i].max(min).min(max);
"""),
    (PM, "        let teleport = self.probability > rnd;\n        if teleport {\n            for i in 0..coordinates.len() {\n                coordinates[i] = self.random_intervals[i].sample(&mut self.random);\n            }\n        }",
     "        if rnd >= self.probability {\n            return;\n        }\n        for (x, between) in coordinates.iter_mut().zip(&self.random_intervals) {\n            *x = between.sample(&mut self.random);\n        }"),
    (STOP, """        let mut result = false;
        for checker in &mut self.stop_checkers {
            if checker.can_stop(state) {
                result = true;
            }
        }

        result
""", """        self.stop_checkers
            .iter_mut()
            .fold(false, |stop, checker| checker.can_stop(state) || stop)
"""),
    (STOP, """                let delta = (best_goal - self.old_goal).abs();
                // NaN is "there was no value yet"
                let first = self.old_goal.is_nan() && !best_goal.is_nan();
                if first || delta > self.delta {
                    self.old_goal = best_goal;
                    self.change_iter = state.get_iteration();
                }

                (state.get_iteration() - self.change_iter) > self.max_iter
""", """                let iteration = state.get_iteration();
                let moved = if self.old_goal.is_nan() {
                    !best_goal.is_nan()
                } else {
                    (self.old_goal - best_goal).abs() > self.delta
                };
                if moved {
                    self.change_iter = iteration;
                    self.old_goal = best_goal;
                }

                iteration > self.max_iter + self.change_iter
"""),
    (STAT, """        let success_solutions = self.iter().filter_map(|x| x.as_ref());
        let count = success_solutions.clone().count();
        let sum = success_solutions.fold(0 as GoalValue, |acc, (_, goal)| acc + goal);

        if count == 0 {
            None
        } else {
            Some(sum / (count as GoalValue))
        }
""", """        let mut count = 0;
        let mut mean = 0.0;
        for (_, goal) in self.iter().flatten() {
            count += 1;
            mean += (goal - mean) / (count as GoalValue);
        }

        if count == 0 {
            None
        } else {
            Some(mean)
        }
"""),
    (STAT, "        self.results.append(&mut other.results);\n        self.convergence.append(&mut other.convergence);", "        self.convergence.extend(other.convergence.drain(..));\n        self.results.extend(other.results.drain(..));"),
    (STAT, "        self.call_count.increment();\n        self.goal.get(x)", "        let value = self.goal.get(x);\n        self.call_count.add(1);\n        value"),
    (STAT, "                Some(success_solutions.count() as f64 / (count as f64))", "                let successes = success_solutions.fold(0, |n, _| n + 1);\n                Some(f64::from(successes) / (count as f64))"),
    (LOG, """            let mut result = String::new();
            result = result + &format!("{:<8}", state.get_iteration());

            for x in solution {
                result = result + &format!("  {:<20.*}", self.precision, x);
            }
            result = result + &format!("  {:20.*}", self.precision, goal);

            writeln!(&mut self.writer, "{}", result).unwrap();
""", """            write!(&mut self.writer, "{:<8}", state.get_iteration()).unwrap();

            for x in solution {
                write!(&mut self.writer, "  {:<20.*}", self.precision, x).unwrap();
            }
            writeln!(&mut self.writer, "  {:20.*}", self.precision, goal).unwrap();
"""),
    (LOG, """        let time_ms = duration.as_secs() * 1000 + duration.subsec_millis() as u64;
""", """        let time_ms = duration.as_millis();
"""),
    (FUNC, "    for n in 0..x.len() - 1 {\n        sum = sum + G::from(100.0).unwrap() * ((x[n + 1] - x[n] * x[n]).powi(2)) + (G::from(1.0).unwrap() - x[n]).powi(2);",
     "    for pair in x.windows(2) {\n        let valley = pair[1] - pair[0] * pair[0];\n        let distance = G::one() - pair[0];\n        sum = distance * distance + G::from(100.0).unwrap() * valley * valley + sum;"),
    (FUNC, "        result = result + (*val - (G::from(n).unwrap() + G::from(1.0).unwrap())).powi(2);", "        let difference = *val - G::from(n + 1).unwrap();\n        result = result + difference * difference;"),
    (FUNC, "    let result = G::from(418.9829).unwrap() * G::from(x.len()).unwrap() - x.iter().fold(G::zero(), |acc, &xi| acc + xi * xi.abs().sqrt().sin());",
     "    let result = x.iter().fold(G::zero(), |acc, &xi| acc + (G::from(418.9829).unwrap() - xi * xi.abs().sqrt().sin()));"),
    (FUNC, "    let result = a * G::from(x.len()).unwrap() +\n        x.iter().fold(G::zero(), |acc, &xi| acc + xi * xi - a * (G::from(2).unwrap() * pi * xi).cos());",
     "    let two = G::one() + G::one();\n    let result = x.iter().fold(G::zero(), |acc, &xi| acc + (xi * xi + a * (G::one() - (two * pi * xi).cos())));"),
]

B = [
    # ties and NaN-only populations: another extreme individual
    (G, """        if goal_1.is_nan() && goal_2.is_nan() {
            Ordering::Greater
        } else""", """        if goal_1.is_nan() && goal_2.is_nan() {
            Ordering::Equal
        } else"""),
    (G, """        if goal_1.is_nan() && goal_2.is_nan() {
            Ordering::Less
        } else""", """        if goal_1.is_nan() && goal_2.is_nan() {
            Ordering::Equal
        } else"""),
    (G, "            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));", "            .rev()\n            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));"),
    (G, "        self.individuals.retain(|individual| individual.is_alive());", "        let all = std::mem::replace(&mut self.individuals, vec![]);\n        self.individuals = all.into_iter().filter(|i| i.is_alive()).collect();"),
    (G, """        self.population.reset();
        let start_chromo_list = self.creator.create();
""", """        let start_chromo_list = self.creator.create();
        self.population.reset();
"""),
    (P, """        for mut current_coordinates in &mut coordinates {
            self.post_move
                .iter_mut()
                .for_each(|post_move| post_move.post_move(&mut current_coordinates));
        }

        let particles: Vec<Particle<T>> = coordinates
            .iter()
            .zip(velocity.iter())
            .map(|cs| {
                let particle_coordinate = cs.0.clone();
                let particle_velocity = cs.1.clone();
                let particle_value = self.goal.get(cs.0);
                Particle::new(particle_coordinate, particle_velocity, particle_value)
            })
            .collect();

        self.swarm.reset();
""", """        self.swarm.reset();
        let mut particles = Vec::with_capacity(coordinates.len());
        for (mut position, speed) in coordinates.drain(..).zip(velocity.into_iter()) {
            for post_move in &mut self.post_move {
                post_move.post_move(&mut position);
            }
            let value = self.goal.get(&position);
            particles.push(Particle::new(position, speed, value));
        }

"""),
    (P, """            self.swarm.update_best_particle();
            self.swarm.update_worst_particle();
            self.swarm.next_iteration();

            for""", """            self.swarm.finish_iteration();

            for"""),
    (P, """    fn next_iteration(&mut self) {
        self.iteration += 1;
    }
""", """    fn next_iteration(&mut self) {
        self.iteration += 1;
    }

    fn finish_iteration(&mut self) {
        self.update_worst_particle();
        self.update_best_particle();
        self.next_iteration();
    }
"""),
    (SEL, """        let alive_count = population.len_alive();
        if alive_count > self.max_count {
            kill_worst(population, alive_count - self.max_count);
        }
""", """        kill_worst(population, population.len_alive().saturating_sub(self.max_count));
"""),
    # kill_worst by sorting
    (SEL, """    // List of indexes of individuals in population to be kill
    let mut kill_list: Vec<usize> = Vec::with_capacity(count);

    // Index of the items in kill_list with best fitness
    let mut best_index = 0;

    for n in 0..population.len() {
        if !population[n].is_alive() {
            continue;
        }

        if kill_list.len() < count {
            kill_list.push(n);
            if is_better(population, n, kill_list[best_index]) {
                best_index = kill_list.len() - 1;
            }
        } else {
            if is_better(population, kill_list[best_index], n) {
                kill_list[best_index] = n;

                // Find new best item
                best_index = 0;
                for m in 1..kill_list.len() {
                    if is_better(population, kill_list[m], kill_list[best_index]) {
                        best_index = m;
                    }
                }
            }
        }
    }

    for n in kill_list {
        population[n].kill();
    }
""", """    for _ in 0..count {
        let mut worst: Option<usize> = None;
        for n in 0..population.len() {
            if population[n].is_alive() {
                worst = match worst {
                    Some(m) if !is_better(population, m, n) => Some(m),
                    _ => Some(n),
                };
            }
        }
        match worst {
            Some(n) => population[n].kill(),
            None => break,
        }
    }
"""),
    (PAIR, """        let between = Uniform::new(0, population.len());
        let count = population.len() / 2;
""", """        let size = population.len();
        let between = Uniform::new_inclusive(0, size - 1);
        let count = size >> 1;
"""),
    (CROSS, "        let mut result: G = parents_genes.iter().fold(G::one(), |x, y| x * (**y));\n\n        result = result.powf(G::one() / G::from(parents_genes.len()).unwrap());\n        vec![result]",
     "        let count = G::from(parents_genes.len()).unwrap();\n        let product = parents_genes.iter().map(|x| **x).fold(G::one(), |x, y| y * x);\n        vec![product.powf(count.recip())]"),
    (CROSS, """        let parent_1 = parents[0];
        let parent_2 = parents[1];

        let gene_count = parent_1.len();
        let mut child = vec![];

        for n in 0..gene_count {
            let mut new_gene = self
                .single_cross
                .cross(vec![&parent_1[n], &parent_2[n]].as_slice());
            child.append(&mut new_gene);
        }
        vec![child]
""", """        let single_cross = &mut self.single_cross;
        let child = parents[0]
            .iter()
            .zip(parents[1])
            .flat_map(|(x, y)| single_cross.cross(&[x, y]))
            .collect();
        vec![child]
"""),
    (CROSS, """        let mantissa_between = Uniform::new(1, mantissa_size);
        let exponent_between = Uniform::new(1, exponent_size);
""", """        let mantissa_between = Uniform::new_inclusive(1, mantissa_size - 1);
        let exponent_between = Uniform::new_inclusive(1, exponent_size - 1);
"""),
    (CROSS, """            T::from(sign_child).unwrap()
                * T::from(mantissa_child).unwrap()
                * T::from(exponent_child).unwrap().exp2(),
""", """            T::from(mantissa_child).unwrap()
                * T::from(exponent_child).unwrap().exp2()
                * T::from(sign_child).unwrap(),
"""),
    (MUT, """        let mut bit_value = gene.to_bits();
        for _ in 0..self.change_gene_count {
            let pos = between.sample(&mut self.random);
            bit_value ^= 1 << pos;
        }
        f64::from_bits(bit_value)
""", """        let random = &mut self.random;
        let mask = (0..self.change_gene_count).fold(0u64, |mask, _| mask ^ (1 << between.sample(random)));
        f64::from_bits(gene.to_bits() ^ mask)
"""),
    (TOOLS, """        let result = intervals
            .iter()
            .map(|(min, max)| {
                let between = Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap());
                T::from(between.sample(&mut self.random)).unwrap()
            })
            .collect();

        result
""", """        let mut result = Vec::with_capacity(intervals.len());
        for (min, max) in intervals {
            let (min, max) = (min.to_f64().unwrap(), max.to_f64().unwrap());
            let between = Uniform::new_inclusive(min, max);
            let value = between.sample(&mut self.random);
            result.push(T::from(value).unwrap());
        }
        result
"""),
    (INIT, """        (0..self.particles_count)
            .map(|_| vec![T::zero(); self.dimension])
            .collect()
""", """        vec![vec![T::zero(); self.dimension]; self.particles_count]
"""),
    (VEL, """            let velocity_item = self.xi
                * (particle.velocity[i]
                    + self.phi_personal
                        * r_personal
                        * (particle.best_personal_coordinates[i] - particle.coordinates[i])
                    + self.phi_global
                        * r_global
                        * (global_best_solution[i] - particle.coordinates[i]));
            new_velocity.push(velocity_item);
""", """            let x = particle.coordinates[i];
            let own = r_personal * self.phi_personal * (particle.best_personal_coordinates[i] - x);
            let social = r_global * self.phi_global * (global_best_solution[i] - x);
            new_velocity.push((own + social + particle.velocity[i]) * self.xi);
"""),
    (VEL, "        let between = Uniform::new_inclusive(0.0, 1.0);\n", "        let between = Uniform::new_inclusive(0.0_f32, 1.0_f32);\n"),
    (VEL, """        self.w_max
            - (self.w_max - self.w_min) * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()
""", """        let part = T::from(iteration).unwrap() / T::from(self.t_max).unwrap();
        self.w_max - (self.w_max - self.w_min) * part
"""),
    (PM, """            if !coordinates[i].is_finite() {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] < self.intervals[i].0 {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] > self.intervals[i].1 {
                coordinates[i] = self.intervals[i].1;
            }
""", """            let (min, max) = self.intervals[i];
            let x = &mut coordinates[i];
            if !x.is_finite() || *x < min {
                *x = min;
            } else if *x > max {
                *x = max;
            }
"""),
    (PM, "        let rnd = Uniform::new(0.0_f32, 1.0_f32).sample(&mut self.random);\n        let teleport = self.probability > rnd;",
     "        let teleport = self.random.gen::<f32>() < self.probability;"),
    (PM, "use rand::rngs::ThreadRng;", "use rand::rngs::ThreadRng;\nuse rand::Rng;"),
    (STOP, """                let delta = (best_goal - self.old_goal).abs();
""", """                let delta = if best_goal < self.old_goal {
                    self.old_goal - best_goal
                } else {
                    best_goal - self.old_goal
                };
"""),
    (STOP, """        let mut result = true;
        for checker in &mut self.stop_checkers {
            if !checker.can_stop(state) {
                result = false;
            }
        }

        result
""", """        let answers: Vec<bool> = self
            .stop_checkers
            .iter_mut()
            .rev()
            .map(|checker| checker.can_stop(state))
            .collect();
        answers.into_iter().all(|stop| stop)
"""),
    (STAT, """        for i in 0..min_iterations {
            let mut sum_count = 0;
            let mut sum = 0 as GoalValue;
            for run in 0..run_count {
                if let Some(solution) = &self[run][i] {
                    sum += solution.1;
                    sum_count += 1;
                }
            }

            if sum_count != 0 {
                result.push(Some(sum / (sum_count as GoalValue)));
            } else {
                result.push(None);
            }
        }
""", """        for i in 0..min_iterations {
            let goals: Vec<GoalValue> = (0..run_count)
                .rev()
                .filter_map(|run| self[run][i].as_ref().map(|solution| solution.1))
                .collect();
            result.push(match goals.len() {
                0 => None,
                n => Some(goals.iter().sum::<GoalValue>() / (n as GoalValue)),
            });
        }
"""),
    (STAT, """        let sum = success_solutions.fold(0 as GoalValue, |acc, (_, goal)| {
            acc + (*goal - average_value) * (*goal - average_value)
        });

        if count < 2 {
            None
        } else {
            Some((sum / ((count - 1) as GoalValue)).sqrt())
        }
""", """        if count < 2 {
            return None;
        }
        let sum: GoalValue = success_solutions
            .map(|(_, goal)| (*goal - average_value).powi(2) / ((count - 1) as GoalValue))
            .sum();
        Some(sum.sqrt())
"""),
    (STAT, """            // NaN is never a success
            if !((*x - *e).abs() <= *d) {
                return false;
            }
        }
        true
""", """            let distance = (*x - *e).abs();
            if distance.is_nan() || distance > *d || d.is_nan() {
                return false;
            }
        }
        true
"""),
    (LOG, """                let mut result = String::new();
                result = result + "Solution:\\n";

                for x in solution {
                    result = result + &format!("  {:.*}\\n", self.precision, x);
                }

                result = result + "\\n";
                writeln!(&mut self.writer, "{}", result).unwrap();
                writeln!(&mut self.writer, "Goal: {:.*}", self.precision, goal).unwrap();
""", """                let lines: Vec<String> = solution
                    .iter()
                    .map(|x| format!("  {:.*}\\n", self.precision, x))
                    .collect();
                let result = format!("Solution:\\n{}\\n\\nGoal: {:.*}\\n", lines.join(""), self.precision, goal);
                self.writer.write_all(result.as_bytes()).unwrap();
"""),
    (FUNC, "    for n in 0..x.len() - 1 {\n        sum = sum + G::from(100.0).unwrap() * ((x[n + 1] - x[n] * x[n]).powi(2)) + (G::from(1.0).unwrap() - x[n]).powi(2);",
     "    for n in 1..x.len() {\n        let (a, b) = (x[n - 1], x[n]);\n        sum = sum + G::from(100.0).unwrap() * (b - a.powi(2)).powi(2);\n        sum = sum + (a - G::one()).powi(2);"),
    (FUNC, "G::from(3.14159265358979_f64)", "G::from(std::f64::consts::PI)"),
    (FUNC, "acc + xi * xi.abs().sqrt().sin()", "acc + (xi.abs().sqrt()).sin() * xi"),
]

C = [
    # a loop with a break, loggers by iterators
    (G, """        while !self.stop_checker.can_stop(&self.population) {
            // Pairing
            let mut children_chromo_list = self.run_pairing();
""", """        loop {
            let enough = self.stop_checker.can_stop(&self.population);
            if enough {
                break;
            }

            // Pairing
            let mut children_chromo_list = self.run_pairing();
"""),
    (G, """            for logger in &mut self.loggers {
                logger.next_iteration(&self.population);
            }
""", """            let population = &self.population;
            self.loggers
                .iter_mut()
                .for_each(|logger| logger.next_iteration(population));
"""),
    # the goals of all newborns first
    (G, """        for chromosome in chromosomes_list {
            self.push(chromosome);
        }
""", """        let goals: Vec<f64> = chromosomes_list
            .iter()
            .map(|chromosomes| self.goal.get(chromosomes))
            .collect();
        let newborns = chromosomes_list
            .into_iter()
            .zip(goals.into_iter())
            .map(|(chromosomes, fitness)| Individual {
                chromosomes,
                fitness,
                alive: true,
            });
        self.individuals.extend(newborns);
"""),
    (G, """        let mut agents: Vec<&Self::Agent> = Vec::with_capacity(self.len());
        for individual in self.individuals.iter() {
            agents.push(individual);
        }

        agents
""", """        self.individuals.iter().collect()
"""),
    (G, """        self.individuals
            .iter()
            .filter(|individual| individual.is_alive())
            .count()
""", """        let mut count = self.individuals.len();
        for individual in &self.individuals {
            if !individual.alive {
                count -= 1;
            }
        }
        count
"""),
    (G, """        self.population.reset();
        let start_chromo_list = self.creator.create();
""", """        let start_chromo_list = self.creator.create();
        self.population.reset();
"""),
    (G, """            let mut cross_chromosomes = Vec::with_capacity(pair.len());
            for i in pair {
                cross_chromosomes.push(self.population[i].get_chromosomes());
            }
""", """            let population = &self.population;
            let cross_chromosomes: Vec<&T> = pair
                .iter()
                .map(|&i| &population.individuals[i].chromosomes)
                .collect();
"""),
    (P, """        for mut current_coordinates in &mut coordinates {
            self.post_move
                .iter_mut()
                .for_each(|post_move| post_move.post_move(&mut current_coordinates));
        }

        let particles: Vec<Particle<T>> = coordinates
            .iter()
            .zip(velocity.iter())
            .map(|cs| {
                let particle_coordinate = cs.0.clone();
                let particle_velocity = cs.1.clone();
                let particle_value = self.goal.get(cs.0);
                Particle::new(particle_coordinate, particle_velocity, particle_value)
            })
            .collect();
""", """        // all points through the first correction, then through the second, ...
        for post_move in &mut self.post_move {
            for current_coordinates in &mut coordinates {
                post_move.post_move(current_coordinates);
            }
        }

        let mut particles: Vec<Particle<T>> = Vec::with_capacity(coordinates.len());
        for (particle_coordinate, particle_velocity) in
            coordinates.into_iter().zip(velocity.into_iter())
        {
            let particle_value = self.goal.get(&particle_coordinate);
            particles.push(Particle::new(
                particle_coordinate,
                particle_velocity,
                particle_value,
            ));
        }
"""),
    (P, """                self.swarm.particles[n].move_to(new_coordinates, new_value);
""", """                let mut particle = self.swarm.particles[n].clone();
                particle.move_to(new_coordinates, new_value);
                self.swarm.particles[n] = particle;
"""),
    (P, """            let particle = particles
                .iter()
                .min_by(|p1, p2| compare_floats(p1.value, p2.value))
                .unwrap();
            Some(particle.clone())
""", """            let mut best = &particles[0];
            for particle in &particles[1..] {
                if compare_floats(particle.value, best.value) == Ordering::Less {
                    best = particle;
                }
            }
            Some(best.clone())
"""),
    (P, """            let particle = particles
                .iter()
                .max_by(|p1, p2| compare_floats(p1.value, p2.value))
                .unwrap();
            Some(particle.clone())
""", """            let mut worst = &particles[0];
            for particle in &particles[1..] {
                if compare_floats(particle.value, worst.value) == Ordering::Greater {
                    worst = particle;
                }
            }
            Some(worst.clone())
"""),
    (P, """        match &self.swarm.best_particle {
            None => None,
            Some(particle) => Some((particle.coordinates.clone(), particle.value)),
        }
    }
}

impl<T: Clone> AlgorithmState""", """        self.swarm.get_best_solution()
    }
}

impl<T: Clone> AlgorithmState"""),
    (SEL, """        for individual in population.iter_mut() {
            if !individual.get_fitness().is_finite() {
                individual.kill();
            }
        }
""", """        let bad: Vec<usize> = (0..population.len())
            .filter(|&n| {
                let fitness = population[n].get_fitness();
                fitness.is_nan() || fitness.is_infinite()
            })
            .collect();
        for n in bad {
            population[n].kill();
        }
"""),
    # one by one
    (SEL, """        let alive_count = population.len_alive();
        if alive_count > self.max_count {
            kill_worst(population, alive_count - self.max_count);
        }
""", """        while population.len_alive() > self.max_count {
            kill_worst(population, 1);
        }
"""),
    (SELF, """            for (chromo, interval) in individual
                .get_chromosomes()
                .iter()
                .zip(self.intervals.iter())
            {
                if !chromo.is_finite() || *chromo < interval.0 || *chromo > interval.1 {
                    individual.kill();
                    break;
                }
            }
""", """            let outside = individual
                .get_chromosomes()
                .iter()
                .zip(&self.intervals)
                .any(|(gene, &(min, max))| !gene.is_finite() || *gene < min || *gene > max);
            if outside {
                individual.kill();
            }
"""),
    (PRE, """        for (chromo, interval) in chromosomes.iter().zip(self.intervals.iter()) {
            if !chromo.is_finite() || *chromo < interval.0 || *chromo > interval.1 {
                return false;
            }
        }

        true
""", """        chromosomes
            .iter()
            .zip(&self.intervals)
            .all(|(gene, (min, max))| gene.is_finite() && min <= gene && gene <= max)
"""),
    (PAIR, """                let mut best_ind_index = between.sample(&mut self.random);

                // Loop for tournaments rounds
                for _ in 0..self.rounds_count {
                    let challenger = between.sample(&mut self.random);
                    if population
                        .individuals_min_cmp(&population[challenger], &population[best_ind_index])
                        == Ordering::Less
                    {
                        best_ind_index = challenger;
                    }
                }
                family.push(best_ind_index);
""", """                let contestants: Vec<usize> = (0..=self.rounds_count)
                    .map(|_| between.sample(&mut self.random))
                    .collect();
                let mut best_ind_index = contestants[0];
                for &challenger in contestants.iter().rev() {
                    if population
                        .individuals_min_cmp(&population[challenger], &population[best_ind_index])
                        == Ordering::Less
                    {
                        best_ind_index = challenger;
                    }
                }
                family.push(best_ind_index);
"""),
    (PAIR, """        let between = Uniform::new(0, population.len());
        let count = population.len() / 2;
        for _ in 0..count {
            let first = between.sample(&mut self.random);
            let second = between.sample(&mut self.random);
            let pair = vec![first, second];
            pairs.push(pair);
        }
""", """        let between = Uniform::new_inclusive(0, population.len() - 1);
        let count = population.len() / 2;
        let seconds: Vec<usize> = (0..count).map(|_| between.sample(&mut self.random)).collect();
        for second in seconds {
            pairs.push(vec![between.sample(&mut self.random), second]);
        }
"""),
    (CROSS, """    let size = mem::size_of::<f64>() * 8;
    let mask_parent_1 = !0u64 << pos;
    let mask_parent_2 = !0u64 >> (size - pos);
    (parent_1 & mask_parent_1) | (parent_2 & mask_parent_2)
""", """    let mask = (1u64 << pos) - 1;
    parent_1 ^ ((parent_1 ^ parent_2) & mask)
"""),
    (CROSS, """    let size = mem::size_of::<i16>() * 8;
    let mask_parent_1 = !0i16 << pos;
    let mask_parent_2 = std::i16::MAX >> (size - pos - 1);
    (parent_1 & mask_parent_1) | (parent_2 & mask_parent_2)
""", """    cross_u16(parent_1 as u16, parent_2 as u16, pos) as i16
"""),
    (CROSS, """        for n in 0..gene_count {
            let mut new_gene = self
                .single_cross
                .cross(vec![&parent_1[n], &parent_2[n]].as_slice());
            child.append(&mut new_gene);
        }
""", """        for n in 0..gene_count {
            child.extend(self.single_cross.cross(&[&parent_1[n], &parent_2[n]]));
        }
"""),
    (CROSS, """        let mut result: G = parents_genes
            .iter()
            .fold(G::zero(), |x, y| x + (**y).clone());

        result = result / G::from(parents_genes.len()).unwrap();
        vec![result]
""", """        let mut sum = G::zero();
        for gene in parents_genes {
            sum = sum + (*gene).clone();
        }
        vec![sum / G::from(parents_genes.len()).unwrap()]
"""),
    (MUT, """        let size = mem::size_of::<f64>() * 8;
        let between = Uniform::new(0, size);

        let mut bit_value = gene.to_bits();
        for _ in 0..self.change_gene_count {
            let pos = between.sample(&mut self.random);
            bit_value ^= 1 << pos;
        }
        f64::from_bits(bit_value)
""", """        let between = Uniform::new_inclusive(0u32, 63);
        let mut mask = 0u64;
        for _ in 0..self.change_gene_count {
            mask ^= 1u64.rotate_left(between.sample(&mut self.random));
        }
        f64::from_bits(gene.to_bits() ^ mask)
"""),
    (MUT, """        for chromo in chromosomes {
            if mutate.sample(&mut self.random) < self.probability {
                result.push(self.single_mutation.mutation(&chromo));
            } else {
                result.push(chromo.clone());
            }
        }
""", """        // draw first
        let chosen: Vec<bool> = chromosomes
            .iter()
            .map(|_| mutate.sample(&mut self.random) < self.probability)
            .collect();
        for (chromo, chosen) in chromosomes.iter().zip(chosen) {
            result.push(if chosen {
                self.single_mutation.mutation(chromo)
            } else {
                chromo.clone()
            });
        }
"""),
    (CREATE, """        for _ in 0..self.population_size {
            let mut chromo = Vec::with_capacity(chromo_count);
            for interval in &self.intervals {
                let between = Uniform::new_inclusive(
                    interval.0.to_f64().unwrap(),
                    interval.1.to_f64().unwrap(),
                );
                chromo.push(G::from(between.sample(&mut self.random)).unwrap());
            }

            population.push(chromo);
        }
""", """        let distributions: Vec<Uniform<f64>> = self
            .intervals
            .iter()
            .map(|(min, max)| Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap()))
            .collect();
        while population.len() < self.population_size {
            let mut chromo: Vec<G> = Vec::with_capacity(chromo_count);
            for between in &distributions {
                chromo.push(G::from(between.sample(&mut self.random)).unwrap());
            }
            population.push(chromo);
        }
"""),
    # the draws first
    (VEL, """        let between = Uniform::new_inclusive(0.0_f32, 1.0_f32);
        let mut new_velocity = Vec::with_capacity(dimension);
        for i in 0..dimension {
            let r_personal = T::from(between.sample(&mut self.random)).unwrap();
            let r_global = T::from(between.sample(&mut self.random)).unwrap();

            let velocity_item = particle.velocity[i]
                + self.phi_personal
""", """        let between = Uniform::new_inclusive(0.0_f32, 1.0_f32);
        let mut r_globals: Vec<T> = Vec::with_capacity(dimension);
        for _ in 0..dimension {
            r_globals.push(T::from(between.sample(&mut self.random)).unwrap());
        }
        let mut new_velocity = Vec::with_capacity(dimension);
        for i in 0..dimension {
            let r_personal = T::from(between.sample(&mut self.random)).unwrap();
            let r_global = r_globals[i];

            let velocity_item = particle.velocity[i]
                + self.phi_personal
"""),
    (VEL, """            let velocity_item = inertia_ratio * particle.velocity[i]
                + self.phi_personal
                    * r_personal
                    * (particle.best_personal_coordinates[i] - particle.coordinates[i])
                + self.phi_global * r_global * (global_best_solution[i] - particle.coordinates[i]);
            new_velocity.push(velocity_item);
""", """            let x = particle.coordinates[i];
            let to_personal = particle.best_personal_coordinates[i] - x;
            let to_global = global_best_solution[i] - x;
            new_velocity.push(
                r_global * self.phi_global * to_global
                    + r_personal * self.phi_personal * to_personal
                    + particle.velocity[i] * inertia_ratio,
            );
"""),
    (VEL, """                * (particle.velocity[i] + v_best_personal + v_best_current + v_best_global
                    - v_worst_personal
                    - v_worst_current
                    - v_worst_global);
""", """                * (particle.velocity[i] + (v_best_personal + v_best_current + v_best_global)
                    - (v_worst_personal + v_worst_current + v_worst_global));
"""),
    (PV, """                if v.abs() <= *v_max {
                    *v
                } else {
                    v_max.abs() * v.signum()
                }
""", """                if v.abs() > *v_max {
                    if v.is_sign_negative() { -v_max.abs() } else { v_max.abs() }
                } else {
                    *v
                }
"""),
    (PM, """        for i in 0..coordinates.len() {
            if !coordinates[i].is_finite() {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] < self.intervals[i].0 {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] > self.intervals[i].1 {
                coordinates[i] = self.intervals[i].1;
            }
        }
""", """        for (x, &(min, max)) in coordinates.iter_mut().zip(self.intervals.iter()) {
            *x = if x.is_finite() { x.max(min).min(max) } else { min };
        }
"""),
    (PM, """        let rnd = Uniform::new(0.0_f32, 1.0_f32).sample(&mut self.random);
        let teleport = self.probability > rnd;
        if teleport {
            for i in 0..coordinates.len() {
                coordinates[i] = self.random_intervals[i].sample(&mut self.random);
            }
        }
""", """        let rnd = Uniform::new(0.0_f32, 1.0_f32).sample(&mut self.random);
        if rnd >= self.probability {
            return;
        }
        let random = &mut self.random;
        *coordinates = self.random_intervals.iter().map(|between| between.sample(random)).collect();
"""),
    (TOOLS, """        let result = intervals
            .iter()
            .map(|(min, max)| {
                let between = Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap());
                T::from(between.sample(&mut self.random)).unwrap()
            })
            .collect();

        result
""", """        let mut result = Vec::with_capacity(intervals.len());
        for (min, max) in intervals {
            let between = Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap());
            result.push(T::from(between.sample(&mut self.random)).unwrap());
        }
        result
"""),
    (STOP, """        let mut result = false;
        for checker in &mut self.stop_checkers {
            if checker.can_stop(state) {
                result = true;
            }
        }

        result
""", """        self.stop_checkers
            .iter_mut()
            .map(|checker| checker.can_stop(state))
            .fold(false, |any, stop| any || stop)
"""),
    (STOP, """        let mut result = true;
        for checker in &mut self.stop_checkers {
            if !checker.can_stop(state) {
                result = false;
            }
        }

        result
""", """        // the last first
        let answers: Vec<bool> = self
            .stop_checkers
            .iter_mut()
            .rev()
            .map(|checker| checker.can_stop(state))
            .collect();
        answers.iter().all(|&stop| stop)
"""),
    (STOP, """        if state.get_iteration() == 0 || state.get_iteration() < self.last_iter {
            // The algorithm was started anew, forget the previous run
            self.old_goal = f64::NAN;
            self.change_iter = 0;
        }
        self.last_iter = state.get_iteration();

        match state.get_best_solution() {
            None => false,
            Some((_, best_goal)) => {
                let delta = (best_goal - self.old_goal).abs();
                // NaN is "there was no value yet"
                let first = self.old_goal.is_nan() && !best_goal.is_nan();
                if first || delta > self.delta {
                    self.old_goal = best_goal;
                    self.change_iter = state.get_iteration();
                }

                (state.get_iteration() - self.change_iter) > self.max_iter
            }
        }
""", """        let iteration = state.get_iteration();
        let anew = iteration == 0 || iteration < self.last_iter;
        self.last_iter = iteration;
        if anew {
            // The algorithm was started anew, forget the previous run
            self.old_goal = f64::NAN;
            self.change_iter = 0;
        }

        if let Some((_, best_goal)) = state.get_best_solution() {
            let changed = (self.old_goal - best_goal).abs() > self.delta;
            if changed || (!best_goal.is_nan() && self.old_goal.is_nan()) {
                self.change_iter = iteration;
                self.old_goal = best_goal;
            }
            iteration > self.change_iter && iteration - self.change_iter > self.max_iter
        } else {
            false
        }
"""),
    (STAT, """        if self.0.len() == 0 {
            self.0.push(0);
        }
        let index = self.0.len() - 1;

        self.0[index] += 1;
""", """        self.add(1);
"""),
    (STAT, """        let run_index = self.convergence.len() - 1;
        self.convergence[run_index].push(state.get_best_solution().clone());
""", """        self.convergence.last_mut().unwrap().push(state.get_best_solution());
"""),
    (STAT, """            self.iter().fold(self[0].len(), |min_len, x| {
                if x.len() < min_len {
                    x.len()
                } else {
                    min_len
                }
            })
""", """            self.iter().map(|run| run.len()).min().unwrap_or(0)
"""),
    (STAT, """        let success_solutions = self.iter().filter_map(|x| x.as_ref());
        let count = success_solutions.clone().count();
        let sum = success_solutions.fold(0 as GoalValue, |acc, (_, goal)| acc + goal);
""", """        let goals: Vec<GoalValue> = self.iter().flatten().map(|(_, goal)| *goal).collect();
        let count = goals.len();
        let sum: GoalValue = goals.iter().sum();
"""),
    (LOG, """            let mut result = String::new();
            result = result + &format!("{:<8}", state.get_iteration());

            for x in solution {
                result = result + &format!("  {:<20.*}", self.precision, x);
            }
            result = result + &format!("  {:20.*}", self.precision, goal);

            writeln!(&mut self.writer, "{}", result).unwrap();
""", """            write!(&mut self.writer, "{:<8}", state.get_iteration()).unwrap();
            for x in &solution {
                write!(&mut self.writer, "  {:<20.*}", self.precision, x).unwrap();
            }
            writeln!(&mut self.writer, "  {:20.*}", self.precision, goal).unwrap();
"""),
    (LOG, "        let time_ms = duration.as_secs() * 1000 + duration.subsec_millis() as u64;", "        let time_ms = duration.as_millis();"),
    (FUNC, """    for n in 0..x.len() - 1 {
        sum = sum + G::from(100.0).unwrap() * ((x[n + 1] - x[n] * x[n]).powi(2)) + (G::from(1.0).unwrap() - x[n]).powi(2);
    }
""", """    for pair in x.windows(2) {
        let bend = pair[1] - pair[0] * pair[0];
        let offset = G::one() - pair[0];
        sum = sum + G::from(100.0).unwrap() * bend * bend + offset * offset;
    }
"""),
    (FUNC, """    let mut result = G::from(0.0).unwrap();
    for (n, val) in x.iter().enumerate() {
        result = result + (*val - (G::from(n).unwrap() + G::from(1.0).unwrap())).powi(2);
    }

    result.to_f64().unwrap()
""", """    (1..=x.len())
        .map(|n| (x[n - 1] - G::from(n).unwrap()).powi(2))
        .fold(G::zero(), |sum, term| sum + term)
        .to_f64()
        .unwrap()
"""),
]

D = [
    # both extremes in one pass
    (G, """        // Update the best individual
        let best = self
            .individuals
            .iter()
            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));

        if let Some(ref individual) = best {
            self.best_individual = Some((*individual).clone());
        }

        // Update the worst individual
        let worst = self
            .individuals
            .iter()
            .max_by(|ind_1, ind_2| self.individuals_max_cmp(ind_1, ind_2));

        if let Some(ref individual) = worst {
            self.worst_individual = Some((*individual).clone());
        }
""", """        if self.individuals.is_empty() {
            return;
        }
        let (mut best, mut worst) = (0, 0);
        for n in 1..self.individuals.len() {
            if self.individuals_min_cmp(&self.individuals[n], &self.individuals[best]) == Ordering::Less {
                best = n;
            }
            if self.individuals_max_cmp(&self.individuals[n], &self.individuals[worst]) == Ordering::Greater {
                worst = n;
            }
        }
        self.best_individual = Some(self.individuals[best].clone());
        self.worst_individual = Some(self.individuals[worst].clone());
"""),
    # mutating in place, children moved
    (G, """            let mut children_mutants: Vec<T> = children_chromo_list
                .iter_mut()
                .map(|chromo| self.mutation.mutation(chromo))
                .collect();
""", """            for chromo in children_chromo_list.iter_mut() {
                *chromo = self.mutation.mutation(chromo);
            }
            let mut children_mutants = children_chromo_list;
"""),
    (G, """        for pair in pairs {
            let mut cross_chromosomes = Vec::with_capacity(pair.len());
            for i in pair {
                cross_chromosomes.push(self.population[i].get_chromosomes());
            }
""", """        let families: Vec<Vec<T>> = pairs
            .into_iter()
            .map(|pair| {
                pair.into_iter()
                    .map(|i| self.population[i].get_chromosomes().clone())
                    .collect()
            })
            .collect();
        for family in &families {
            let cross_chromosomes: Vec<&T> = family.iter().collect();
"""),
    (G, "        self.individuals.retain(|individual| individual.is_alive());", """        let mut n = 0;
        while n < self.individuals.len() {
            if self.individuals[n].alive {
                n += 1;
            } else {
                self.individuals.remove(n);
            }
        }"""),
    (G, """        if goal_1.is_nan() && goal_2.is_nan() {
            Ordering::Greater
        } else if goal_1.is_nan() {
            Ordering::Greater
        } else if goal_2.is_nan() {
            Ordering::Less
        } else {
            goal_1.partial_cmp(&goal_2).unwrap()
        }
""", """        match (goal_1.is_nan(), goal_2.is_nan()) {
            (true, _) => Ordering::Greater,
            (false, true) => Ordering::Less,
            _ => goal_1.partial_cmp(&goal_2).unwrap_or(Ordering::Equal),
        }
"""),
    # the initial velocities first; a helper that moves one particle
    (P, """        let mut coordinates = self.coordinates_initializer.get_coordinates();
        let velocity = self.velocity_initializer.get_velocity();
""", """        let velocity = self.velocity_initializer.get_velocity();
        let mut coordinates = self.coordinates_initializer.get_coordinates();
"""),
    (P, """                // Calculate new coordinates
                let mut new_coordinates: Coordinate<T> = self.swarm.particles[n]
                    .coordinates
                    .iter()
                    .zip(self.swarm.particles[n].velocity.iter())
                    .map(|(coord, velocity)| *coord + *velocity)
                    .collect();
""", """                // Calculate new coordinates
                let mut new_coordinates = self.swarm.particles[n].coordinates.clone();
                for (i, coord) in new_coordinates.iter_mut().enumerate() {
                    *coord = self.swarm.particles[n].velocity[i] + *coord;
                }
"""),
    (P, """        if compare_floats(value, self.best_personal_value) == Ordering::Less {
            self.best_personal_coordinates = self.coordinates.clone();
            self.best_personal_value = value;
        }

        if compare_floats(value, self.worst_personal_value) == Ordering::Greater {
            self.worst_personal_coordinates = self.coordinates.clone();
            self.worst_personal_value = value;
        }
""", """        match compare_floats(value, self.worst_personal_value) {
            Ordering::Greater => {
                self.worst_personal_value = value;
                self.worst_personal_coordinates.clone_from(&self.coordinates);
            }
            _ => {}
        }
        if compare_floats(self.best_personal_value, value) == Ordering::Greater {
            self.best_personal_value = value;
            self.best_personal_coordinates.clone_from(&self.coordinates);
        }
"""),
    # ties: the last of the best
    (P, """                .min_by(|p1, p2| compare_floats(p1.value, p2.value))
                .unwrap();""", """                .rev()
                .min_by(|p1, p2| compare_floats(p1.value, p2.value))
                .unwrap();"""),
    (P, """                .max_by(|p1, p2| compare_floats(p1.value, p2.value))
                .unwrap();""", """                .rev()
                .max_by(|p1, p2| compare_floats(p1.value, p2.value))
                .unwrap();"""),
    (P, """        let mut agents: Vec<&Self::Agent> = Vec::with_capacity(self.len());
        for particle in self.particles.iter() {
            agents.push(particle);
        }

        agents
""", """        self.particles.iter().collect()
"""),
    (P, """        let mut particle = Particle::new(self.coordinates.clone(), self.velocity.clone(), self.value);
        particle.best_personal_coordinates = self.best_personal_coordinates.clone();
        particle.best_personal_value = self.best_personal_value;
        particle.worst_personal_coordinates = self.worst_personal_coordinates.clone();
        particle.worst_personal_value = self.worst_personal_value;
        particle
""", """        Particle {
            coordinates: self.coordinates.clone(),
            velocity: self.velocity.clone(),
            value: self.value,
            best_personal_coordinates: self.best_personal_coordinates.clone(),
            best_personal_value: self.best_personal_value,
            worst_personal_coordinates: self.worst_personal_coordinates.clone(),
            worst_personal_value: self.worst_personal_value,
        }
"""),
    (SEL, """        if alive_count > self.max_count {
            kill_worst(population, alive_count - self.max_count);
        }
""", """        kill_worst(population, alive_count.saturating_sub(self.max_count));
"""),
    (SEL, "    population.individuals_min_cmp(&population[index_1], &population[index_2]) == Ordering::Less", """    let (a, b) = (population[index_1].get_fitness(), population[index_2].get_fitness());
    if a.is_nan() {
        false
    } else {
        b.is_nan() || a < b
    }"""),
    (SEL, "use std::cmp::Ordering;\n", ""),
    (PAIR, """            // Loop for partner
            for _ in 0..self.partners_count {
""", """            // Loop for partner
            while family.len() < self.partners_count {
"""),
    (CROSS, """        let size = mem::size_of::<f32>() * 8;
        let between = Uniform::new(1, size);
        let pos = between.sample(&mut self.random);
""", """        let pos = Uniform::new_inclusive(1, 31).sample(&mut self.random);
"""),
    (CROSS, """    let mask_parent_1 = !0u32 << pos;
    let mask_parent_2 = !0u32 >> (size - pos);
    (parent_1 & mask_parent_1) | (parent_2 & mask_parent_2)
""", """    let upper = (parent_1 >> pos) << pos;
    let lower = (parent_2 << (size - pos)) >> (size - pos);
    upper + lower
"""),
    (CROSS, """        let mantissa_pos = mantissa_between.sample(&mut self.random);
        let exponent_pos = exponent_between.sample(&mut self.random);
""", """        let exponent_pos = exponent_between.sample(&mut self.random);
        let mantissa_pos = mantissa_between.sample(&mut self.random);
"""),
    (CROSS, """        let sign_child = match Uniform::new_inclusive(0i8, 1i8).sample(&mut self.random) {
            0 => sign_1,
            1 => sign_2,
            _ => panic!("Invalid random value in FloatCrossExp"),
        };
""", """        let signs = [sign_1, sign_2];
        let sign_child = signs[Uniform::new(0usize, 2).sample(&mut self.random)];
"""),
    (MUT, """            if mutate.sample(&mut self.random) < self.probability {
                result.push(self.single_mutation.mutation(&chromo));
            } else {
                result.push(chromo.clone());
            }
""", """            let rnd = mutate.sample(&mut self.random);
            let gene = match rnd >= self.probability {
                true => chromo.clone(),
                false => self.single_mutation.mutation(chromo),
            };
            result.push(gene);
"""),
    (VEL, """        let between = Uniform::new_inclusive(0.0, 1.0);
        let mut new_velocity = Vec::with_capacity(dimension);
        for i in 0..dimension {
            let r_best_global = T::from(between.sample(&mut self.random)).unwrap();
            let r_best_current = T::from(between.sample(&mut self.random)).unwrap();
            let r_best_personal = T::from(between.sample(&mut self.random)).unwrap();

            let r_worst_global = T::from(between.sample(&mut self.random)).unwrap();
            let r_worst_current = T::from(between.sample(&mut self.random)).unwrap();
            let r_worst_personal = T::from(between.sample(&mut self.random)).unwrap();
""", """        let between = Uniform::new_inclusive(0.0_f64, 1.0);
        let mut new_velocity = Vec::with_capacity(dimension);
        for i in 0..dimension {
            let r: Vec<T> = (0..6)
                .map(|_| T::from(between.sample(&mut self.random)).unwrap())
                .collect();
            let (r_best_personal, r_best_current, r_best_global) = (r[0], r[1], r[2]);
            let (r_worst_personal, r_worst_current, r_worst_global) = (r[3], r[4], r[5]);
"""),
    (VEL, """        self.w_max
            - (self.w_max - self.w_min) * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()
""", """        let part = T::from(iteration).unwrap() / T::from(self.t_max).unwrap();
        part * self.w_min + (T::one() - part) * self.w_max
"""),
    (PV, """        let new_velocity = velocity
            .iter()
            .zip(self.max_velocity.iter())
            .map(|(v, v_max)| {
                if v.abs() <= *v_max {
                    *v
                } else {
                    v_max.abs() * v.signum()
                }
            })
            .collect();

        new_velocity
""", """        let mut velocity = velocity;
        for (n, v) in velocity.iter_mut().enumerate() {
            let v_max = self.max_velocity[n];
            if !(v.abs() <= v_max) {
                *v = v.signum() * v_max.abs();
            }
        }
        velocity
"""),
    (PV, """            let new_velocity = velocity
                .iter()
                .map(|vi| (*vi) / current_velocity_abs * self.max_velocity)
                .collect();
            new_velocity
""", """            let ratio = self.max_velocity / current_velocity_abs;
            velocity.into_iter().map(|vi| vi * ratio).collect()
"""),
    (INIT, """            .map(|_| vec![T::zero(); self.dimension])
            .collect()
""", """            .map(|_| (0..self.dimension).map(|_| T::zero()).collect())
            .collect()
"""),
    (STAT, """        if self.results.len() == self.convergence.len() {
            // The run was resumed after a pause, it has a result already
            self.results.pop();
        }
        self.results.push(state.get_best_solution().clone());
""", """        let run_count = self.convergence.len();
        let result = state.get_best_solution();
        if self.results.len() < run_count {
            self.results.push(result);
        } else {
            // The run was resumed after a pause, it has a result already
            self.results[run_count - 1] = result;
        }
"""),
    (STAT, """            let mut sum_count = 0;
            let mut sum = 0 as GoalValue;
            for run in 0..run_count {
                if let Some(solution) = &self[run][i] {
                    sum += solution.1;
                    sum_count += 1;
                }
            }
""", """            let goals: Vec<GoalValue> = (0..run_count)
                .filter_map(|run| self[run][i].as_ref().map(|solution| solution.1))
                .collect();
            let sum_count = goals.len();
            let sum: GoalValue = goals.iter().sum();
"""),
    (STAT, """            acc + (*goal - average_value) * (*goal - average_value)
""", """            acc + (*goal - average_value).powi(2)
"""),
    (STAT, """                Some(success_solutions.count() as f64 / (count as f64))
""", """                let successes = success_solutions.count();
                Some((successes as f64) / (self.len() as f64))
"""),
    (STAT, "        let sum: usize = self.0.iter().sum();\n        let count = self.0.len();\n        if count == 0 {\n            None\n        } else {\n            Some((sum as f64) / (count as f64))\n        }",
     "        if self.0.is_empty() {\n            return None;\n        }\n        let sum: f64 = self.0.iter().map(|&count| count as f64).sum();\n        Some(sum / (self.0.len() as f64))"),
    (LOG, """        match state.get_best_solution() {
            None => writeln!(&mut self.writer, "Solution not found").unwrap(),
            Some((solution, goal)) => {
""", """        let best = state.get_best_solution();
        if best.is_none() {
            writeln!(&mut self.writer, "Solution not found").unwrap();
        }
        match best {
            None => {}
            Some((solution, goal)) => {
"""),
    (FUNC, "    let result = G::from(418.9829).unwrap() * G::from(x.len()).unwrap() - x.iter().fold(G::zero(), |acc, &xi| acc + xi * xi.abs().sqrt().sin());",
     "    let mut result = G::zero();\n    for &xi in x {\n        result = result + G::from(418.9829).unwrap() - xi * xi.abs().sqrt().sin();\n    }"),
    (FUNC, "    let result = a * G::from(x.len()).unwrap() +\n        x.iter().fold(G::zero(), |acc, &xi| acc + xi * xi - a * (G::from(2).unwrap() * pi * xi).cos());",
     "    let mut result = G::zero();\n    for &xi in x {\n        result = result + a + xi.powi(2) - a * (G::from(2).unwrap() * pi * xi).cos();\n    }"),
]

E = [
    # other ways to draw the same numbers, other ways to refuse
    (PAIR, "use rand::distributions::{Distribution, Uniform};\nuse rand::rngs::ThreadRng;\n", "use rand::rngs::ThreadRng;\nuse rand::Rng;\n"),
    (PAIR, """        let mut pairs: Vec<Vec<usize>> = vec![];
        if population.len() == 0 {
            return pairs;
        }

        let between = Uniform::new(0, population.len());
        let count = population.len() / 2;
        for _ in 0..count {
            let first = between.sample(&mut self.random);
            let second = between.sample(&mut self.random);
            let pair = vec![first, second];
            pairs.push(pair);
        }

        pairs
""", """        let size = population.len();
        (0..size / 2)
            .map(|_| vec![self.random.gen_range(0, size), self.random.gen_range(0, size)])
            .collect()
"""),
    (PAIR, """        let between = Uniform::new(0, population.len());

        // Loop""", """        let size = population.len();

        // Loop"""),
    (PAIR, """                let mut best_ind_index = between.sample(&mut self.random);

                // Loop for tournaments rounds
                for _ in 0..self.rounds_count {
                    let challenger = between.sample(&mut self.random);
                    if population
                        .individuals_min_cmp(&population[challenger], &population[best_ind_index])
                        == Ordering::Less
                    {
                        best_ind_index = challenger;
                    }
                }
                family.push(best_ind_index);
""", """                let candidates: Vec<usize> = (0..=self.rounds_count)
                    .map(|_| self.random.gen_range(0, size))
                    .collect();
                let winner = candidates.into_iter().fold(None, |best, next| match best {
                    Some(index)
                        if population.individuals_min_cmp(&population[next], &population[index])
                            != Ordering::Less =>
                    {
                        Some(index)
                    }
                    _ => Some(next),
                });
                family.extend(winner);
"""),
    (MUT, "use rand::distributions::{Distribution, Uniform};\nuse rand::rngs;\nuse rand::rngs::ThreadRng;\nuse std::mem;\n", "use rand::rngs::ThreadRng;\nuse rand::Rng;\n"),
    (MUT, "    random: rngs::ThreadRng,\n", "    random: ThreadRng,\n"),
    (MUT, """        let size = mem::size_of::<f32>() * 8;
        let between = Uniform::new(0, size);

        let mut bit_value = gene.to_bits();
        for _ in 0..self.change_gene_count {
            let pos = between.sample(&mut self.random);
            bit_value ^= 1 << pos;
        }
        f32::from_bits(bit_value)
""", """        f32::from_bits(gene.to_bits() ^ self.mask(32) as u32)
"""),
    (MUT, """        let size = mem::size_of::<f64>() * 8;
        let between = Uniform::new(0, size);

        let mut bit_value = gene.to_bits();
        for _ in 0..self.change_gene_count {
            let pos = between.sample(&mut self.random);
            bit_value ^= 1 << pos;
        }
        f64::from_bits(bit_value)
""", """        f64::from_bits(gene.to_bits() ^ self.mask(64))
"""),
    (MUT, """            random,
            change_gene_count,
        }
    }
""", """            random,
            change_gene_count,
        }
    }

    fn mask(&mut self, bits: u8) -> u64 {
        let mut mask = 0;
        for _ in 0..self.change_gene_count {
            mask ^= 1_u64 << self.random.gen_range(0, bits);
        }
        mask
    }
"""),
    (MUT, "        let mutate = Uniform::new(0.0, 100.0);\n", "        let probability = (self.probability / 100.0).max(0.0).min(1.0);\n"),
    (MUT, "if mutate.sample(&mut self.random) < self.probability {", "if self.random.gen_bool(probability) {"),
    (PM, "use rand::distributions::{Distribution, Uniform};\nuse rand::rngs::ThreadRng;\n", "use rand::distributions::{Distribution, Uniform};\nuse rand::rngs::ThreadRng;\nuse rand::Rng;\n"),
    (PM, """        let rnd = Uniform::new(0.0_f32, 1.0_f32).sample(&mut self.random);
        let teleport = self.probability > rnd;
        if teleport {""", """        if self.random.gen_bool(f64::from(self.probability)) {"""),
    (PM, """        assert_eq!(coordinates.len(), self.intervals.len());

        for i in 0..coordinates.len() {
            if !coordinates[i].is_finite() {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] < self.intervals[i].0 {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] > self.intervals[i].1 {
                coordinates[i] = self.intervals[i].1;
            }
        }
""", """        if coordinates.len() != self.intervals.len() {
            panic!("{} coordinates, {} intervals", coordinates.len(), self.intervals.len());
        }

        *coordinates = coordinates
            .iter()
            .zip(&self.intervals)
            .map(|(x, (low, high))| if x.is_finite() { x.max(*low).min(*high) } else { *low })
            .collect();
"""),
    (PM, """        assert!(probability >= 0_f32);
        assert!(probability <= 1_f32);
""", """        if !(0_f32..=1_f32).contains(&probability) {
            panic!("not a probability: {}", probability);
        }
"""),
    (VEL, """        let between = Uniform::new_inclusive(0.0_f32, 1.0_f32);
        let mut new_velocity = Vec::with_capacity(dimension);
        for i in 0..dimension {
            let r_personal = T::from(between.sample(&mut self.random)).unwrap();
            let r_global = T::from(between.sample(&mut self.random)).unwrap();

            let velocity_item = particle.velocity[i]
                + self.phi_personal""", """        let mut random = rand::thread_rng();
        let mut new_velocity = Vec::with_capacity(dimension);
        for i in 0..dimension {
            let r_personal = T::from(random.gen_range(0.0_f64, 1.0)).unwrap();
            let r_global = T::from(self.random.gen::<f32>()).unwrap();

            let velocity_item = particle.velocity[i]
                + self.phi_personal"""),
    (VEL, "use rand::rngs::ThreadRng;\n", "use rand::rngs::ThreadRng;\nuse rand::Rng;\n"),
    (PV, """        assert_eq!(velocity.len(), self.max_velocity.len());
""", """        let (given, expected) = (velocity.len(), self.max_velocity.len());
        if given != expected {
            panic!("velocity of {} components, {} limits", given, expected);
        }
"""),
    (CREATE, "use rand::distributions::{Distribution, Uniform};\nuse rand::rngs::ThreadRng;\n", "use crate::tools::RandomVectorCreator;\n"),
    (CREATE, "    random: ThreadRng,\n", "    random: RandomVectorCreator,\n"),
    (CREATE, "        let random = rand::thread_rng();\n", "        let random = RandomVectorCreator::new();\n"),
    (CREATE, """        let mut population = Vec::with_capacity(self.population_size * 2);
        let chromo_count = self.intervals.len();

        for _ in 0..self.population_size {
            let mut chromo = Vec::with_capacity(chromo_count);
            for interval in &self.intervals {
                let between = Uniform::new_inclusive(
                    interval.0.to_f64().unwrap(),
                    interval.1.to_f64().unwrap(),
                );
                chromo.push(G::from(between.sample(&mut self.random)).unwrap());
            }

            population.push(chromo);
        }

        population
""", """        (0..self.population_size)
            .map(|_| self.random.create_vec(&self.intervals))
            .collect()
"""),
    (CROSS, """        assert!(parents.len() == 2);

        let parent_1 = parents[0];
        let parent_2 = parents[1];
""", """        let (parent_1, parent_2) = match parents {
            [first, second] => (first, second),
            _ => panic!("a family of {}", parents.len()),
        };
"""),
    (CROSS, "use rand::rngs::ThreadRng;\n", "use rand::rngs::ThreadRng;\nuse rand::Rng;\n"),
    (CROSS, """        let size = mem::size_of::<f64>() * 8;
        let between = Uniform::new(1, size);
        let pos = between.sample(&mut self.random);
""", """        let pos = 64 - self.random.gen_range(1_u8, 64) as usize;
"""),
    (CROSS, """        let mantissa_pos = mantissa_between.sample(&mut self.random);
        let exponent_pos = exponent_between.sample(&mut self.random);
""", """        let mut random = rand::thread_rng();
        let exponent_pos = exponent_between.sample(&mut random);
        let mantissa_pos = mantissa_between.sample(&mut random);
"""),
    (CROSS, """        let sign_child = match Uniform::new_inclusive(0i8, 1i8).sample(&mut self.random) {
            0 => sign_1,
            1 => sign_2,
            _ => panic!("Invalid random value in FloatCrossExp"),
        };
""", """        let sign_child = if self.random.gen() { sign_1 } else { sign_2 };
"""),
    (SELF, """            assert_eq!(individual.get_chromosomes().len(), self.intervals.len());
""", """            if individual.get_chromosomes().len() != self.intervals.len() {
                panic!("an individual of another dimension");
            }
"""),
    (PRE, """        assert_eq!(chromosomes.len(), self.intervals.len());

        for (chromo, interval) in chromosomes.iter().zip(self.intervals.iter()) {
            if !chromo.is_finite() || *chromo < interval.0 || *chromo > interval.1 {
                return false;
            }
        }

        true
""", """        let size = chromosomes.len();
        assert!(size == self.intervals.len(), "a newborn of another dimension");
        (0..size).all(|i| {
            let (low, high) = self.intervals[i];
            chromosomes[i].is_finite() && low <= chromosomes[i] && chromosomes[i] <= high
        })
"""),
]

ALL = {"A": A, "B": B, "C": C, "D": D, "E": E}


def write(out):
    os.makedirs(out, exist_ok=True)
    for name, edits in ALL.items():
        with tempfile.TemporaryDirectory() as d:
            subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && git -C %s init -q && git -C %s add -A && "
                                  "git -C %s -c user.name=x -c user.email=x commit -qm x" % (d, d, d, d), shell=True)
            for f, old, new in edits:
                p = d + "/" + f
                t = open(p).read()
                n = t.count(old)
                if n < 1:
                    sys.exit("%s: not found in %s: %s" % (name, f, old))
                open(p, "w").write(t.replace(old, new, 1))
            open(out + "/%s.diff" % name, "w").write(subprocess.check_output(["git", "-C", d, "diff"]).decode())


if __name__ == "__main__":
    write(sys.argv[1])
