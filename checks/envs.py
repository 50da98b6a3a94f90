"""scripted environments shared by the wrapper checks"""
import gymnasium
import numpy as onp


class Scripted(gymnasium.Env):
    """ returns whatever the harness puts into .next; records what it was given """

    def __init__(self, action_space=None, observation_space=None):
        self.action_space = action_space or gymnasium.spaces.Discrete(3)
        self.observation_space = observation_space or gymnasium.spaces.Box(
            low=-onp.ones(1, 'float32'), high=onp.ones(1, 'float32'))
        self.actions = []
        self.resets = 0
        self.next = None
        self.next_reset = None
        self.reset_kwargs = []

    def reset(self, **kwargs):
        self.resets += 1
        self.reset_kwargs.append(kwargs)
        return self.next_reset

    def step(self, a):
        self.actions.append(a)
        return self.next
