PROPERTY = 'A03'
NEEDS = 'a table in which consecutive entries have the same angle of attack and different sideslip'
BREAKS = 'the lattice (with its wake) is kept from the entry before if the angle of attack is the same, although the sideslip differs'
EDITS = [('stdfun/run.py', "        lattice = vlm.gen_lattice(aircraft, cur_state, settings, make_new_subareas)\n",
          "        # The lattice depends on the free stream direction\n        if i == 0 or cur_state.aero['alpha'] != last_alpha:\n            lattice = vlm.gen_lattice(aircraft, cur_state, settings, make_new_subareas)\n        last_alpha = cur_state.aero['alpha']\n")]
DEMO = '''
ac = ac_file(model(1, 2))
one = run(project(ac, dict(airspeed=[50.0], density=[1.2], alpha=[4.0], beta=[8.0], rate_P=[0], rate_Q=[0], rate_R=[0]), 'one'))['state'].results
two = run(project(ac, dict(airspeed=[50.0, 50.0], density=[1.2, 1.2], alpha=[4.0, 4.0], beta=[0.0, 8.0], rate_P=[0, 0], rate_Q=[0, 0], rate_R=[0, 0]), 'two'))['state'].results
for k in one:
    expect(close(one[k][0], two[k][1], 1e-9), 'result %s of an entry does not depend on other entries' % k)
'''
