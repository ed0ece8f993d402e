typedef }
