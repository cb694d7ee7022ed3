import { App } from "@attitude/webapp/app";
import * as plots from "@attitude/plots/index";
import * as vertical from "@attitude/plots/vertical";
import * as labels from "@attitude/plots/graticule-labels";
import * as core from "@attitude/core/index";
import { store } from "@macrostrat/ui-components";
import * as React from "react";
import * as ReactDOM from "react-dom";
import * as d3 from "d3";
export { App, plots, vertical, labels, core, store, React, ReactDOM, d3 };
