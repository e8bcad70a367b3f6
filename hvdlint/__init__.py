"""Repository-specific static analysis for wangronin/HypervolumeDerivatives."""
