import * as nbui from "@attitude/notebook-ui/index";
import * as panel from "@attitude/notebook-ui/components/data-panel";
import * as list from "@attitude/notebook-ui/components/list";
import * as sideview from "@attitude/notebook-ui/components/side-view";
import * as net from "@attitude/notebook-ui/components/stereonet";
import * as core from "@attitude/core/index";
import * as React from "react";
import * as ReactDOM from "react-dom";
import * as d3 from "d3";
export { nbui, panel, list, sideview, net, core, React, ReactDOM, d3 };
