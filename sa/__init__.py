"""Static analyser for tfchain-py: program model, gated value analysis, rules."""
